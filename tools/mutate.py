#!/usr/bin/env python3
"""Mutation campaign (development only; no check uses it):  mutate.py COUNT SEED LOG WORKERS [file...]
Applies COUNT single-token mutations per file to a scratch copy and runs the checks of the file's properties; logs what survives."""
import os, random, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "base58.c": "C15", "base64.c": "C16", "base64.h": "C16", "web64.c": "C16", "daemon.c": "C32 C29 C26", "easy_parsing.cpp": "C34", "error.h": "C34", "error.hpp": "C34",
    "gmtime.h": "C31", "log_array.hpp": "C31", "logger.c": "C28", "logger.h": "C28", "random.c": "C27", "socket.h": "C30", "string.c": "C22", "string.h": "C23", "string.cpp": "C23 C27",
    "stringstorage.c": "C04 C05", "synque.hpp": "C06 C07", "system.c": "C27 C26 C28", "txml.cpp": "C24", "txml.hpp": "C24", "url.cpp": "C17 C18 C19 C20 C21", "url_parser.cpp": "C20 C21", "url_parser.hpp": "C21",
    "vietnam.cpp": "C25", "cache.hpp": "C01 C02 C03", "cache.tcc": "C01 C02 C03", "estimate_capacity.hpp": "C02", "shm_hash_map.hpp": "C08 C09", "shm_queue.hpp": "C12 C13",
    "shm_hash_map.tcc": "C08 C10 C11 C09", "shm_queue.tcc": "C12 C13 C14", "shm_pool.tcc": "C33", "shm_stack.tcc": "C33",
}


def strip(s):
    """positions that are code"""
    code = [True] * len(s)
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|^[ \t]*#(?:include|ifndef|ifdef|endif|define __)[^\n]*', s, re.S | re.M):
        for i in range(m.start(), m.end()):
            code[i] = False
    return code


def mutants(s):
    code = strip(s)
    out = []
    def add(a, b, new, kind):
        if all(code[a:b]):
            out.append((a, b, new, kind))
    for m in re.finditer(r'(?<![<>=!\-+*/&|])(<=|>=|==|!=|&&|\|\||<|>)(?![<>=])', s):
        o = m.group(1)
        if o in "<>" and (s[m.start() - 1] != " " or s[m.end():m.end() + 1] != " "):
            continue
        for n in {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["<=", ">"], ">": [">=", "<"]}[o]:
            add(m.start(), m.end(), n, "op")
    for m in re.finditer(r'(?<= )([+\-*/%]|<<|>>|[+\-]=)(?= )', s):
        add(m.start(), m.end(), {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/", "<<": ">>", ">>": "<<", "+=": "-=", "-=": "+="}[m.group(1)], "arith")
    for m in re.finditer(r'\+\+|--(?!>)', s):
        add(m.start(), m.end(), "--" if m.group(0) == "++" else "++", "incdec")
    for m in re.finditer(r'(?<![\w.\'])(0x[0-9a-fA-F]+|\d+)(?![\w.\'])', s):
        v = int(m.group(1), 16 if m.group(1)[:2] == '0x' else 8 if re.match('0[0-7]+$', m.group(1)) else 10)
        add(m.start(), m.end(), str(v + 1), "const")
        if v:
            add(m.start(), m.end(), str(v - 1), "const")
    for m in re.finditer(r"'([ -&(-\[\]-~])'", s):
        add(m.start(), m.end(), "'%s'" % chr(ord(m.group(1)) + 1) if chr(ord(m.group(1)) + 1) not in "'\\" else "'~'", "char")
    for m in re.finditer(r'^([ \t]+)((?!return|break|case|else|goto|const |int |char |unsigned |size_t |typedef|template|struct |static |inline |virtual |std::)[A-Za-z_*+\-(][^\n;{}]*;)', s, re.M):
        add(m.start(2), m.end(2), ";", "delete")
    for m in re.finditer(r'\b(if|while) \(([^\n]*)\)(?=[ \t]*\n|[ \t]*[a-z]| \{)', s):
        if m.group(2).count("(") == m.group(2).count(")"):
            add(m.start(2), m.end(2), "!(" + m.group(2) + ")", "negate")
    for m in re.finditer(r'\b(break|continue);', s):
        add(m.start(), m.end(), ";", "flow")
    return out


def one(job):
    """f, source, mutant, worker directory, log"""
    f, src, (a, b, new, kind), w, log = job
    p = os.path.join(w, "coda", f)
    line = src.count("\n", 0, a) + 1
    lt = src.split("\n")[line - 1].strip()
    try:
        open(p, "w", encoding="utf-8", errors="surrogateescape").write(src[:a] + new + src[b:])
        tu = p
        if f.endswith((".h", ".hpp", ".tcc")):
            tu = os.path.join(w, "tu.cpp")
            open(tu, "w").write('#include <stddef.h>\n#include <stdint.h>\n#include <stdio.h>\n#include <sys/types.h>\n#include "coda/%s"\n' % f.replace(".tcc", ".hpp"))
        if subprocess.run(["gcc" if f.endswith(".c") else "g++", "-w", "-fsyntax-only", "-I" + w] + ([] if f.endswith(".c") else ["-std=c++11"]) + [tu], stderr=subprocess.DEVNULL).returncode:
            return None
        res, killed, err = [], False, ""
        for prop in PROPS[f].split():
            pr = subprocess.Popen(["python3", os.path.join(ROOT, "bin/check.py"), prop, "quick"], env=dict(os.environ, CODA_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
            try:
                out, _ = pr.communicate(timeout=900)
                rc = pr.returncode
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, 9)
                out, _ = pr.communicate()
                rc = "timeout"
            if rc == 2 and "BUILD-ERROR" in out:
                return None
            res.append("%s=%s" % (prop, rc))
            if rc == 1:
                killed = True
                break
            if rc != 0:
                err = out[-400:].replace("\n", " / ")
        verdict = "killed" if killed else "ERROR" if err else "SURVIVED"
        with open(log, "a") as lf:
            lf.write("%s %s:%d %s [%s] -> [%s]   %s   %s %s\n" % (verdict, f, line, kind, src[a:b], new, lt, " ".join(res), err))
        return killed
    finally:
        open(p, "w", encoding="utf-8", errors="surrogateescape").write(src)


def main():
    """mutate.py COUNT SEED LOG WORKERS [file...]   (mutants named in a file LOG.skip are not tried again)"""
    import queue, threading
    count, seed, log, workers = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
    files = sys.argv[5:] or sorted(PROPS)
    skip = set()
    if os.path.exists(log + ".skip"):
        for l in open(log + ".skip", errors="replace"):
            m = re.match(r'\w+ (\S+:\d+ \w+ \[.*?\] -> \[.*?\])   ', l)
            if m:
                skip.add(m.group(1))
    q = queue.Queue()
    base = tempfile.mkdtemp(prefix="mu_")
    for i in range(workers):
        os.makedirs("%s/%d" % (base, i))
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s/%d" % (base, i), shell=True)
    per = []
    for f in files:
        src = open("%s/0/coda/%s" % (base, f), encoding="utf-8", errors="surrogateescape").read()
        ms = mutants(src)
        random.Random("%s%d" % (f, seed)).shuffle(ms)
        ms = [m for m in ms if "%s:%d %s [%s] -> [%s]" % (f, src.count("\n", 0, m[0]) + 1, m[3], src[m[0]:m[1]], m[2]) not in skip]
        per.append([(f, src, m) for m in ms[:count]])
    while any(per):  # round robin over the files
        for l in per:
            if l:
                q.put(l.pop(0))
    tot = [0, 0]

    def work(i):
        while True:
            try:
                f, src, m = q.get_nowait()
            except queue.Empty:
                return
            r = one((f, src, m, "%s/%d" % (base, i), log))
            if r is not None:
                tot[0] += 1
                tot[1] += r
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base)
    with open(log, "a") as lf:
        lf.write("DONE %d mutants, %d killed\n" % tuple(tot))


if __name__ == "__main__":
    main()
