#!/usr/bin/env python3
"""check.py <property> <quick|thorough>  -- builds the harnesses of one property from the current tree of /repo,
explores them exhaustively within their bounds, replays any counterexample before reporting it, and writes
evidence/<property>.json.  Exit 0 held, 1 violation (with a VIOLATION line), 2 error of the check itself.

check.py --replay <file>   re-runs one recorded counterexample and prints its trace."""
import array, glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

BIN = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(BIN)
sys.path.insert(0, BIN)
sys.dont_write_bytecode = True
import checks

REPO = os.environ.get("CODA_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
STALL = 100  # seconds without a choice or a new execution
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class BuildError(Exception):
    pass


def sh(cmd, timeout=400):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build(harnesses, bdir, pool):
    """harnesses: list of names in checks.HARNESS -> {name: exe}"""
    jobs, link = {}, []
    for h in harnesses:
        spec = checks.HARNESS[h]
        cflags = ["-O1", "-g0", "-pipe", "-w", "-ftrivial-auto-var-init=pattern", "-I" + REPO, "-I" + os.path.join(ROOT, "lib"), "-I" + bdir] + spec["cflags"]
        objs = []

        def compile_(src, extra, kind):
            key = hashlib.sha1(repr((src, cflags, extra)).encode()).hexdigest()[:16]
            obj = os.path.join(bdir, os.path.basename(src) + "." + key + ".o")
            if obj not in jobs:
                cc = ["gcc"] if src.endswith(".c") else ["g++", "-std=" + spec.get("std", "c++11")]
                jobs[obj] = pool.submit(sh, cc + cflags + extra + ["-c", src, "-o", obj])
            objs.append(obj)

        for s in spec["src"]:
            compile_(os.path.join(ROOT, s), spec.get("hflags", []), "h")
        for s in spec.get("plain", []):
            compile_(os.path.join(ROOT, s), [], "p")
        if spec.get("lib", True):
            for s in sorted(glob.glob(REPO + "/coda/*.c") + glob.glob(REPO + "/coda/*.cpp")):
                compile_(s, spec.get("libflags", []), "l")
        link.append((h, objs, spec))
    for f in jobs.values():
        f.result()
    exes = {}
    for h, objs, spec in link:
        exe = os.path.join(bdir, h + ".exe")
        sh(["g++"] + spec["cflags"] + objs + ["-o", exe, "-lexpat", "-lpthread", "-ldl"] + spec.get("ldflags", []))
        exes[h] = exe
    return exes


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_env(journal, wdir):
    env = dict(os.environ)
    env.pop("MC_JOURNAL", None)
    if journal:
        env["MC_JOURNAL"] = journal
    env["TMPDIR"] = wdir
    env["MC_SCRATCH"] = wdir
    env.pop("ASAN_OPTIONS", None)
    return env


def cmdline(h, exe, args):
    spec = checks.HARNESS[h]
    pre = ["setarch", "-R"] if spec.get("noaslr") and shutil.which("setarch") and \
        subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else []
    return pre + [exe] + args


def run(cmd, wdir, timeout, journal=None):
    """-> (exit status, output); a run that does not end has status 10"""
    os.makedirs(wdir, exist_ok=True)
    with tempfile.TemporaryFile("w+", errors="replace", dir=wdir) as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=wdir, env=run_env(journal, wdir), preexec_fn=limits)
        more = ""
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            more = "\n(did not terminate)"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        log.seek(0, 2)
        log.seek(max(0, log.tell() - 8000))
        return (10 if more else p.returncode), log.read() + more


def replay(h, exe, rfile, wdir, timeout):
    return run(cmdline(h, exe, ["--replay", rfile]), wdir, timeout)


def replayed(rc):
    return rc not in (0, 2, 3)  # 10, or the process exits or dies in another way


def shard_args(prop, tier, i, n, base, budget, isolate):
    args = ["--tier", tier, "--prop", prop, "--shard", "%d/%d" % (i, n), "--out", base + ".json", "--replay-out", base + ".replay"]
    if budget:
        args += ["--budget", str(budget)]
    return args + (["--isolate"] if isolate else [])


def read_journal(fn):
    """the execution that was running -> text of a replay file, or None"""
    try:
        d = open(fn, "rb").read()
        n, = struct.unpack_from("I", d, 0)
        prop = d[4:20].split(b"\0")[0].decode()
        tier, = struct.unpack_from("I", d, 20)
        scen = d[24:260].split(b"\0")[0].decode()
        c = struct.unpack_from("%dI" % n, d, 260)
    except (OSError, struct.error):
        return None
    return "property %s\ntier %d\nscenario %s\nreason %%s\nchoices %s\n" % (prop, tier, scen, " ".join(map(str, c))) if scen else None


def beat(fn):
    """changes with each execution and each choice"""
    try:
        with open(fn, "rb") as f:
            f.seek(260 + 16000)
            return struct.unpack("I", f.read(4))[0]
    except (OSError, struct.error):
        return None


def finish(base, rc):
    """the result of a shard that has ended: ('ok', json) | ('case', replay text) | ('internal',)"""
    if rc == 0 and os.path.exists(base + ".json.outcomes"):
        return ("ok", base + ".json")
    if rc == 10 and os.path.exists(base + ".replay"):
        return ("case", open(base + ".replay", errors="replace").read())
    j = read_journal(base + ".journal")
    if rc == 3 or rc == -signal.SIGKILL or j is None:  # (killed: memory has run out)
        return ("internal",)
    return ("case", j % ("the code under test ends the process (%s)" % ("signal %d" % -rc if rc < 0 else "exit status %d" % rc)))


def explore(h, exe, prop, tier, bdir, budget, nshards, isolate):
    """-> ('ok', [result files]) | ('case', replay text, log, shard) | ('internal', text)"""
    procs = []
    for i in range(nshards):
        wdir = os.path.join(bdir, "w_%s_%d" % (h, i))
        os.makedirs(wdir, exist_ok=True)
        base = os.path.join(bdir, "%s.%d%s" % (h, i, "i" if isolate else ""))
        log = open(base + ".log", "w+", errors="replace")
        p = subprocess.Popen(cmdline(h, exe, shard_args(prop, tier, i, nshards, base, budget, isolate)), stdout=log, stderr=subprocess.STDOUT,
                             cwd=wdir, env=run_env(base + ".journal", wdir), preexec_fn=limits)
        procs.append((p, base, log, i))
    t0 = looked = time.time()
    bad = None
    hard = (budget or 600) + 120
    pend = list(procs)
    beats = {}
    try:
        while pend and bad is None:
            time.sleep(0.02)
            for q in list(pend):
                rc = q[0].poll()
                if rc is None:
                    continue
                pend.remove(q)
                r = finish(q[1], rc)
                if r[0] != "ok" and bad is None:
                    bad = (r, q, rc)
            if time.time() - looked > 2:
                looked = time.time()
                for q in pend:  # an execution that sleeps for ever
                    b = beat(q[1] + ".journal")
                    if beats.get(q[3], (None, 0))[0] != b:
                        if os.environ.get("VERIF_BEAT") and q[3] in beats and looked - beats[q[3]][1] > 6:
                            print("BEAT %s shard %d: %.0f s" % (h, q[3], looked - beats[q[3]][1]))
                        beats[q[3]] = (b, looked)
                    elif b is not None and looked - beats[q[3]][1] > STALL and bad is None:
                        j = read_journal(q[1] + ".journal")
                        bad = j and (("case", j % "the operation under test does not end"), q, None)
            if time.time() - t0 > hard:
                return ("internal", "harness %s exceeded %d s" % (h, hard))
    finally:
        for q in procs:
            try:
                os.killpg(q[0].pid, signal.SIGKILL)
            except OSError:
                pass
            q[0].wait()
    if bad is None:
        return ("ok", [q[1] + ".json" for q in procs])
    r, q, rc = bad
    q[2].seek(0)
    text = "harness %s ended with status %s\n%s" % (h, rc, q[2].read()[-6000:])
    if r[0] == "internal":
        return ("internal", text)
    return ("case", r[1], text, q[3])


def confirm(h, exe, prop, tier, bdir, case, shard, nshards, isolate):
    """replays a case -> (replay file text, output) or (None, output).  A case that does not fail on its own (the code under
    test keeps state from one execution to the next) is confirmed by repeating the whole deterministic history of its shard."""
    case += "harness %s\n" % h
    rfile = os.path.join(bdir, "case.replay")
    with open(rfile, "w") as f:
        f.write(case)
    n, first = 0, ""
    for k in range(4):
        rc, out = replay(h, exe, rfile, os.path.join(bdir, "r%d" % k), STALL if "does not end" in case else 200)
        if replayed(rc):
            n += 1
            first = first or out
        if n == 2:
            return case, first
        if k == 1 and n == 0:
            break
    if "does not end" in case:
        return None, out
    r, out2 = run_shard(h, exe, prop, tier, bdir, shard, nshards, isolate)
    if r[0] == "case" and same(r[1] + "harness %s\n" % h) == same(case):
        return case + "shard %d %d %d\n" % (shard, nshards, isolate), out2 + "\n(alone, the last execution passes: it fails after those before it in this process)"
    return None, out + "\n--- again:\n" + out2


def same(case):
    return [l for l in case.splitlines() if not l.startswith("reason ")]  # (it may name a thread or process)


def run_shard(h, exe, prop, tier, bdir, i, n, isolate):
    base = os.path.join(bdir, "again_%s_%d" % (h, i))
    rc, out = run(cmdline(h, exe, shard_args(prop, tier, i, n, base, 0, isolate)), os.path.join(bdir, "w_%s_%d" % (h, i)), 500, base + ".journal")
    return finish(base, rc), out


def merge(results):
    scen, samples, capped, states_capped = {}, [], False, False
    sets = {"states": set(), "outcomes": set()}
    for fn in results:
        r = json.load(open(fn))
        for s in r["scenarios"]:
            d = scen.setdefault(s["name"], {"name": s["name"], "bound": s["bound"], "executions": 0, "nontrivial": 0, "steps": 0,
                                            "max_choices": 0, "capped": False})
            for k in ("executions", "nontrivial", "steps"):
                d[k] += s[k]
            d["max_choices"] = max(d["max_choices"], s["max_choices"])
            d["capped"] = d["capped"] or s["capped"]
        samples += r["samples"]
        states_capped = states_capped or r["states_capped"]
        for k in sets:
            a = array.array("Q")
            with open(fn + "." + k, "rb") as f:
                a.frombytes(f.read())
            sets[k].update(a)
    return list(scen.values()), samples, states_capped, len(sets["states"]), len(sets["outcomes"])


def pick_samples(samples):
    out, seen = [], set()
    for s in sorted(samples, key=lambda x: (x.split(":", 1)[0], -len(x))):
        k = s.split(":", 1)[0]
        if k in seen:
            continue
        seen.add(k)
        out.append(s)
        if len(out) >= 8:
            break
    return out or samples[:3]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        head = dict(l.split(" ", 1) for l in open(sys.argv[2]).read().splitlines() if " " in l)
        prop = head["property"]
        bdir = tempfile.mkdtemp(prefix="replay_", dir=mkbuild())
        try:
            rc = 3
            with ThreadPoolExecutor(JOBS) as pool:
                hs = [head["harness"]] if "harness" in head else checks.CHECKS[prop]["harness"]
                exes = build(hs, bdir, pool)
            for h in hs:
                if "shard" in head:
                    i, n, iso = map(int, head["shard"].split())
                    r, out = run_shard(h, exes[h], prop, "thorough" if head["tier"] == "1" else "quick", bdir, i, n, iso)
                    rc = {"ok": 0, "case": 10, "internal": 3}[r[0]]
                else:
                    rc, out = replay(h, exes[h], os.path.abspath(sys.argv[2]), os.path.join(bdir, "r"), 200)
                if rc != 3:
                    print(out)
                    break
            return 1 if replayed(rc) else 0
        finally:
            shutil.rmtree(bdir, ignore_errors=True)
    prop, tier = sys.argv[1], sys.argv[2]
    spec = checks.CHECKS[prop]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix=prop + "_", dir=mkbuild())
    try:
        with ThreadPoolExecutor(JOBS) as pool:
            try:
                exes = build(spec["harness"], bdir, pool)
            except BuildError as e:
                print("BUILD-ERROR", e)
                return 2
        tb = time.time()
        total = 780 if tier == "thorough" else spec.get("quick_budget", 240)
        results, perh = [], {}
        for h in spec["harness"]:
            left = max(20, total - (time.time() - t0))
            ns = checks.HARNESS[h].get("shards", JOBS)
            r, iso = explore(h, exes[h], prop, tier, bdir, left, ns, False), False
            stalled = None
            if r[0] == "case" and "does not end" in r[1]:
                stalled = confirm(h, exes[h], prop, tier, bdir, r[1], r[3], ns, iso)
                if not stalled[0]:
                    r, stalled = ("internal", "an execution seemed not to end"), None
            if r[0] == "internal":  # e.g. the code under test keeps state, and the executions are not independent
                print("NOTE %s\nNOTE repeating with every execution in a process of its own" % r[1][-1500:])
                left, iso = max(20, total - (time.time() - t0)), True
                r = explore(h, exes[h], prop, tier, bdir, left, ns, iso)
            if r[0] == "internal":
                print("CHECK-ERROR", r[1])
                return 2
            if r[0] == "case":
                case, out = stalled or confirm(h, exes[h], prop, tier, bdir, r[1], r[3], ns, iso)
                if case:
                    rdir = os.path.join(ROOT, "replays")
                    os.makedirs(rdir, exist_ok=True)
                    dst = os.path.join(rdir, "%s-%s.replay" % (prop, time.strftime("%H%M%S") + "-%d" % os.getpid()))
                    with open(dst, "w") as g:
                        g.write(case)
                    print(out[-5000:])
                    write_evidence(prop, tier, spec, None, None, time.time() - t0, 1, dst)
                    print("VIOLATION property=%s replay=%s" % (prop, dst))
                    return 1
                print("CHECK-ERROR counterexample did not replay\n%s\n%s" % (r[2], out[-3000:]))
                return 2
            results += r[1]
        scen, samples, scap, ns, no = merge(results)
        for line in known(prop):
            print(line)
        write_evidence(prop, tier, spec, (scen, samples, scap, ns, no), tb - t0, time.time() - t0, 0, None)
        ex = sum(s["executions"] for s in scen)
        if ex == 0:
            print("CHECK-ERROR nothing was explored")
            return 2
        print("OK property=%s tier=%s executions=%d steps=%d states=%d outcomes=%d capped=%s build=%.1fs total=%.1fs" % (
            prop, tier, ex, sum(s["steps"] for s in scen), ns, no, [s["name"] for s in scen if s["capped"]], tb - t0, time.time() - t0))
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)


def mkbuild():
    d = os.path.join(ROOT, "build")
    os.makedirs(d, exist_ok=True)
    return d


def known(prop):
    """KNOWN-FINDING lines of the committed file (the harness decides which executions they cover)."""
    fn = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(fn):
        return []
    return [l.strip() for l in open(fn) if l.startswith("KNOWN-FINDING: property=%s " % prop)]


def write_evidence(prop, tier, spec, data, tbuild, wall, viol, rep):
    cov = {}
    if data:
        scen, samples, scap, ns, no = data
        ex = sum(s["executions"] for s in scen)
        capped = any(s["capped"] for s in scen)
        if spec["level"] == "model_checking":
            cov["states"] = ns
            cov["transitions"] = sum(s["steps"] for s in scen)
            cov["traces_validated_against_impl"] = ex
            cov["states_set_capped"] = scap
        else:
            cov["evaluations"] = ex
            cov["distinct_nontrivial"] = sum(s["nontrivial"] for s in scen)
            cov["rule"] = spec["rule"]
        if no:
            cov["distinct_outcomes"] = no
        cov["samples"] = pick_samples(samples)
        cov["exhaustive"] = not capped
        if capped:
            cov["caps_hit"] = [s["name"] for s in scen if s["capped"]]
        cov["scenarios"] = scen
    else:
        cov["explanation"] = "a violation was found and replayed; exploration stopped there"
        cov["samples"] = [open(rep).read()] if rep else []
        if spec["level"] == "model_checking":
            cov.update(states=0, transitions=0, traces_validated_against_impl=0)
        else:
            cov.update(evaluations=0, distinct_nontrivial=0, rule=spec["rule"])
        cov["exhaustive"] = False
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": viol}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
