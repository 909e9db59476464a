#!/usr/bin/env python3
"""Planted-bug helper (development only; no check uses it).
 seedtool.py try ID [tier]   scratch copy: demo clean/patched, existing tests with the patch, then the check of its property
 mk(...)                     used by one-off scripts to create seeded/ID"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def DEMO(src, flags="-fsanitize=address", run='"$w/demo"', link=""):
    """demo.sh that compiles src and the library from the current directory"""
    cc = "gcc" if src.endswith(".c") else "g++ -std=c++11"
    return f'''#!/bin/bash
# exit 0: the behaviour is right, non-zero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
for f in coda/*.c; do gcc -O1 -g -w {flags} -I. -c "$f" -o "$w/$(basename "$f").o" & done
for f in coda/*.cpp; do g++ -std=c++11 -O1 -g -w {flags} -I. -c "$f" -o "$w/$(basename "$f").o" & done
{cc} -O1 -g -w {flags} -I. -c "$d/{src}" -o "$w/demo.o" || exit 99
wait
g++ {flags} "$w"/*.o -o "$w/demo" -lexpat -lpthread {link} || exit 99
export ASAN_OPTIONS=detect_leaks=0
cd "$w" && timeout 100 {run}
'''


def copy(dst):
    os.makedirs(dst)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + dst, shell=True)


def mk(id, prop, edits, needs, breaks, files):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mk_")
    a = os.path.join(t, "r")
    copy(a)
    subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm b", shell=True, cwd=a)
    for f, old, new in edits:
        p = os.path.join(a, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=a, text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, c in files.items():
        open(os.path.join(d, n), "w").write(c)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def sh(cmd, cwd, timeout=300, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    return p.returncode, p.stdout


def tests(repo):
    """build.sh and test.sh with /repo replaced by the scratch copy"""
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", repo + "/.vp_build.sh").replace("/repo", repo)
        open(repo + "/.vp_" + n, "w").write(s)
    rc, out = sh("bash .vp_test.sh %s/.vp_out.json" % repo, repo, 600)
    base = json.load(open("/opt/vp/BASELINE.json"))
    try:
        res = json.load(open(repo + "/.vp_out.json"))
    except Exception:
        return False, out[-1500:]
    return json.dumps(res).lower().count('fail') <= json.dumps(base).lower().count('fail') + 1 and rc == 0, json.dumps(res)[:400]


def try_(id, tier="quick"):
    d = os.path.join(ROOT, "seeded", id)
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="seed_")
    r = t + "/r"
    dd = t + "/d"
    try:
        copy(r)
        shutil.copytree(d, dd)
        c0, o0 = sh("bash %s/demo.sh" % dd, r)
        rc, o = sh("git apply --unsafe-paths --directory=. %s/patch.diff || patch -p1 < %s/patch.diff" % (dd, dd), r)
        if rc:
            print(id, "PATCH DOES NOT APPLY", o)
            return
        c1, o1 = sh("bash %s/demo.sh" % dd, r)
        tok, tout = tests(r)
        env = dict(os.environ, CODA_REPO=r)
        c2, o2 = sh("python3 %s/bin/check.py %s %s" % (ROOT, meta["property"], tier), ROOT, 900, env)
        last = [l for l in o2.splitlines() if l.startswith("FAIL")]
        print("%-22s %s demo clean=%d patched=%d tests=%s check=%s %s" % (id, meta["property"], c0, c1, tok, {0: "MISSED", 1: "caught"}.get(c2, "ERROR %d" % c2), last[-1][:200] if last else ""))
        if c0 or not c1:
            print("   DEMO PROBLEM\n", o0[-1500:], "\n----\n", o1[-1500:])
        if not tok:
            print("   TESTS", tout)
        if c2 not in (0, 1):
            print(o2[-3000:])
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    if sys.argv[1] == "try":
        ids = [a for a in sys.argv[2:] if a not in ("quick", "thorough")]
        tier = "thorough" if "thorough" in sys.argv else "quick"
        for i in ids or sorted(os.listdir(ROOT + "/seeded")):
            try_(i, tier)
