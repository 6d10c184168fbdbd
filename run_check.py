#!/usr/bin/env python3
"""Decide one property by deterministic simulation: build the scenario from /repo's
working tree, run seeds, minimise and replay violations, write the evidence file.

usage: run_check.py <property> [--tier quick|thorough] [--seeds N]
       run_check.py <property> --replay FILE [-v]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check
"""
import sys, os, subprocess, json, time, shutil, re, hashlib, glob, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "_build")
sys.path.insert(0, HERE)
from scen_conf import CONF

CXX = "g++"
CORES = max(1, os.cpu_count() or 1)
# system headers some flut files expect to come in through others
PRE = ["cstring", "cstdlib", "cmath", "cstdio", "cctype", "climits", "string", "vector", "map", "set", "memory", "utility", "iterator",
       "functional", "algorithm", "numeric", "iostream", "sstream", "fstream", "iomanip", "chrono", "thread", "mutex", "atomic",
       "stdexcept", "limits", "array", "tuple", "initializer_list", "type_traits", "random", "cxxabi.h", "unistd.h"]
FLUT_FLAGS = ["-std=c++14", "-w", "-fpermissive", "-Wno-changes-meaning", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address",
              "-D_GLIBCXX_ASSERTIONS", "-I" + REPO, "-I" + os.path.join(REPO, "flut")]
SIM_FLAGS = ["-std=c++17", "-O1", "-g1", "-fsanitize=address", "-w"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def error(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def build(pid):
    """compile sim, scenario and every flut source of the working tree into one binary"""
    conf = CONF[pid]
    d = os.path.join(BUILD, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    # one precompiled header for the standard headers saves most of the time
    pch = os.path.join(d, "pre.hpp")
    with open(pch, "w") as f:
        f.write("".join("#include <%s>\n" % h for h in PRE))
    flags = FLUT_FLAGS + conf.get("flags", [])
    if conf.get("fine"):    # preemption at function entries and exits of the code under test
        if conf["fine"] == "all":   # and of the standard library, and at every basic block
            flags = flags + ["-finstrument-functions", "-finstrument-functions-exclude-file-list=scenarios/,sim/", "-fsanitize-coverage=trace-pc"]
        else:
            flags = flags + ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,scenarios/,sim/"]
    inc = ["-include", pch, "-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "scenarios")]
    jobs = []   # (name, cmd, required)
    r = sh([CXX] + flags + ["-x", "c++-header", pch, "-o", pch + ".gch"])
    if r.returncode:
        error("precompiled header: " + r.stdout[-2000:])
    for f in ("sim", "main"):
        jobs.append((f, [CXX] + SIM_FLAGS + ["-c", os.path.join(HERE, "sim", f + ".cpp"), "-o", os.path.join(d, f + ".o")], True))
    scen = os.path.join(HERE, "scenarios", pid.lower() + ".cpp")
    jobs.append((pid, [CXX] + flags + inc + ["-c", scen, "-o", os.path.join(d, "scenario.o")], True))
    objs = []
    if conf.get("link", True):
        for src in sorted(glob.glob(os.path.join(REPO, "flut", "**", "*.cpp"), recursive=True)):
            rel = os.path.relpath(src, REPO)
            if os.path.relpath(src, os.path.join(REPO, "flut")) in conf.get("exclude", []):
                continue
            o = os.path.join(d, rel.replace("/", "_")[:-4] + ".o")
            jobs.append((rel, [CXX] + flags + inc + ["-c", src, "-o", o], False))
            objs.append(o)
    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(lambda j: sh(j[1]), jobs))
    failed = []
    for j, r in zip(jobs, res):
        if r.returncode:
            if j[2]:
                error("compiling %s failed:\n%s" % (j[0], r.stdout[-4000:]))
            failed.append((j[0], r.stdout))
    lib = os.path.join(d, "libflut.a")
    objs = [o for o in objs if os.path.exists(o)]
    if objs:
        sh(["ar", "rcs", lib] + objs)
    exe = os.path.join(d, "scenario")
    r = sh([CXX, "-fsanitize=address", "-o", exe, os.path.join(d, "scenario.o"), os.path.join(d, "sim.o"), os.path.join(d, "main.o")]
           + ([lib] if objs else []) + ["-lpthread", "-ldl"])
    if r.returncode:
        error("linking failed:\n%s\n%s" % (r.stdout[-3000:], "\n".join("%s:\n%s" % (n, o[-1500:]) for n, o in failed)))
    return exe


def env():
    e = dict(os.environ)
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C"
    e.pop("ASAN_OPTIONS", None)
    return e


def crash_class(rc, text):
    m = re.search(r"AddressSanitizer:? ([\w-]+)", text)
    if m and m.group(1) != "ABRT":
        return "memory_error:" + m.group(1), "address sanitizer: " + m.group(1)
    m = re.search(r"Assertion '(.*)' failed", text)
    if m:
        return "memory_error:assertion", "library assertion failed: " + m.group(1)
    m = re.search(r"terminate called[^\n]*\n?[^\n]*", text)
    if m:
        return "terminate", " ".join(m.group(0).split())
    if m is None and "ABRT" in text:
        return "abort", "the process aborted"
    return "crash:%d" % rc, "the process ended with status %d" % rc


def exec_plan(exe, path, verbose=False, timeout=200):
    """-> (class or None, message, trace hash, output)"""
    try:
        r = subprocess.run([exe, "exec", path] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=timeout)
    except subprocess.TimeoutExpired:
        return "deadlock", "the run did not end", "", ""
    out = r.stdout
    for line in out.splitlines():
        if line.startswith("V 0 "):
            cls, _, msg = line[4:].partition(" | ")
            t = re.search(r"^T (\w+)", out, re.M)
            return cls, msg, t.group(1) if t else "", out
        if line.startswith("R 0 ok"):
            return None, "", line.split()[3], out
    c, m = crash_class(r.returncode, r.stderr)
    return c, m, "", out + r.stderr[-3000:]


# ---------------------------------------------------------------- minimisation
class P:
    def __init__(self, text):
        self.head, self.cfg, self.ops, self.sched = [], [], [], []
        for l in text.splitlines():
            w = l.split(" ")
            if w[0] in ("plan", "seed"): self.head.append(l)
            elif w[0] == "cfg": self.cfg.append((w[1], int(w[2])))
            elif w[0] == "op": self.ops.append([w[1:], []])
            elif w[0] == "fault": self.ops[-1][1].append(w[1:])
            elif w[0] == "sched": self.sched = [int(x) for x in w[1:]]

    def copy(self):
        q = P("")
        q.head, q.cfg, q.sched = list(self.head), list(self.cfg), list(self.sched)
        q.ops = [[list(o), [list(f) for f in fs]] for o, fs in self.ops]
        return q

    def text(self):
        t = self.head + ["cfg %s %d" % c for c in self.cfg]
        for o, fs in self.ops:
            t.append("op " + " ".join(o))
            t += ["fault " + " ".join(f) for f in fs]
        s = list(self.sched)
        while s and s[-1] == 0: s.pop()
        if s: t.append("sched " + " ".join(map(str, s)))
        return "\n".join(t + ["end"]) + "\n"


def minimise(exe, text, cls, budget_s=25, keep_cfg=()):
    d = tempfile.mkdtemp(dir=BUILD)
    t_end = time.time() + budget_s
    tries = [0]

    def bad(p):
        if time.time() > t_end: return False
        tries[0] += 1
        f = os.path.join(d, "p")
        open(f, "w").write(p.text())
        return exec_plan(exe, f)[0] == cls
    cur = P(text)

    def shrink_list(get, setter):
        nonlocal cur
        n = 2
        while True:
            items = get(cur)
            if not items: break
            size = max(1, len(items) // n)
            changed = False
            i = 0
            while i < len(get(cur)):
                q = cur.copy()
                items = get(q)
                setter(q, items[:i] + items[i + size:])
                if bad(q): cur = q; changed = True
                else: i += size
                if time.time() > t_end: return
            if size == 1 and not changed: break
            if size > 1: n *= 2
    slow = cls in ("hang", "deadlock")
    if slow: t_end = time.time() + 60
    shrink_list(lambda p: p.ops, lambda p, v: setattr(p, "ops", v))
    # faults
    for i in range(len(cur.ops)):
        j = 0
        while i < len(cur.ops) and j < len(cur.ops[i][1]):
            q = cur.copy(); del q.ops[i][1][j]
            if bad(q): cur = q
            else: j += 1
    # schedule
    if any(cur.sched):
        q = cur.copy(); q.sched = []
        if bad(q): cur = q
        else:
            for i in range(len(cur.sched)):
                if cur.sched[i]:
                    q = cur.copy(); q.sched[i] = 0
                    if bad(q): cur = q
    for k, v in list(cur.cfg):
        if v and k not in keep_cfg:
            q = cur.copy(); q.cfg = [(a, 0 if a == k else b) for a, b in q.cfg]
            if bad(q): cur = q
    # arguments: shorter strings, smaller numbers
    for i in range(len(cur.ops)):
        for j in range(1, len(cur.ops[i][0])):
            w = cur.ops[i][0][j]
            if w.startswith('"'):
                toks = re.findall(r"%[0-9a-f]{2}|[^%]", w[1:-1])
                k = max(1, len(toks) // 2)
                while toks and k >= 1 and time.time() < t_end:
                    p0 = 0
                    while p0 < len(toks):
                        t2 = toks[:p0] + toks[p0 + k:]
                        q = cur.copy(); q.ops[i][0][j] = '"' + "".join(t2) + '"'
                        if bad(q): cur = q; toks = t2
                        else: p0 += k
                    k //= 2
            elif w not in ("0", "1"):
                for t in ("0", "1", str(int(w) // 2), str(int(w) - 1)):
                    if t == cur.ops[i][0][j]: continue
                    q = cur.copy(); q.ops[i][0][j] = t
                    if bad(q): cur = q; break
    shutil.rmtree(d, ignore_errors=True)
    return cur.text(), tries[0]


# ---------------------------------------------------------------- campaign
def campaign(exe, base, n, thorough, workers, wall, first=0):
    d = tempfile.mkdtemp(dir=BUILD)
    procs = []
    for k in range(workers):
        out, st, er = [os.path.join(d, "%s%d" % (x, k)) for x in ("out", "st", "err")]
        p = subprocess.Popen([exe, "run", str(base), str(first + k), str(workers), str(first + n), str(int(thorough)), out, st, str(int(wall))],
                             stdout=subprocess.DEVNULL, stderr=open(er, "w"), env=env())
        procs.append((p, out, st, er))
    res = {"traces": {}, "nontriv": 0, "viol": [], "probes": {}, "faults": {}, "calls": {}, "nums": {}, "states": set(), "inter": set(), "cut": False}
    for p, out, st, er in procs:
        try:
            rc = p.wait(timeout=wall + 300)
        except subprocess.TimeoutExpired:
            p.kill(); rc = -9
        done = False
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                w = line.rstrip("\n").split(" ")
                if w[0] == "R": res["traces"][int(w[1])] = w[3]; res["nontriv"] += w[4] == "1"; (res.setdefault("nt", set()).add(w[3]) if w[4] == "1" else None)
                elif w[0] == "V":
                    idx, rest = line[2:].rstrip("\n").split(" ", 1)
                    cls, _, msg = rest.partition(" | ")
                    res["viol"].append((int(idx), cls, msg)); done = True
                elif w[0] in "PFC":
                    k = {"P": "probes", "F": "faults", "C": "calls"}[w[0]]; name = " ".join(w[2:]); res[k][name] = res[k].get(name, 0) + int(w[1])
                elif w[0] == "N": res["nums"][w[2]] = res["nums"].get(w[2], 0) + int(w[1])
                elif w[0] == "S": res["states"].add(w[1])
                elif w[0] == "I": res["inter"].add(w[1])
                elif w[0] == "E": done = True; res["cut"] |= w[1] == "cut"
        if not done:
            raw = open(st, "rb").read(8) if os.path.exists(st) else b""
            idx = int.from_bytes(raw, "little") - 1 if len(raw) == 8 else -1
            if idx < 0:
                error("a worker ended with status %d before its first run: %s" % (rc, open(er).read()[-2000:]))
            c, m = crash_class(rc, open(er, errors="replace").read())
            res["viol"].append((idx, c, m))
    shutil.rmtree(d, ignore_errors=True)
    return res


def load_findings(pid):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    conf = CONF[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seeds = None
    replay = None
    verbose = "-v" in args
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    if "--seeds" in args: seeds = int(args[args.index("--seeds") + 1])
    if "--replay" in args: replay = args[args.index("--replay") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    findings = load_findings(pid)
    os.environ["VERIF_KNOWN"] = ",".join(k for k, _ in findings)
    exe = build(pid)
    t_build = time.time() - t0
    if replay:
        c, m, t, out = exec_plan(exe, replay, verbose)
        if verbose: print(out)
        if c:
            print("replay: %s | %s (trace %s)" % (c, m, t))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            sys.exit(1)
        print("replay: no violation (trace %s)" % t)
        sys.exit(0)
    n = seeds or conf["thorough" if thorough else "quick"]
    wall = 5400 if thorough else 420
    t1 = time.time()
    print("property %s: %s, base seed %d, %d runs planned, build %.1f s" % (pid, tier, seed, n, t_build)); sys.stdout.flush()
    res = campaign(exe, seed, n, thorough, CORES, wall)
    t_run = time.time() - t1
    reported, errors = [], []
    known = [text for key, text in findings if res["probes"].get("known:" + key)]
    for idx, cls, msg in sorted(res["viol"]):
        if reported: continue
        print("violation candidate: run %d class %s: %s" % (idx, cls, msg)); sys.stdout.flush()
        plan = sh([exe, "gen", str(seed), str(idx), str(int(thorough))], env=env()).stdout
        rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-seed%d-run%d.plan" % (pid, seed, idx))
        open(rp, "w").write(plan)
        a, b = exec_plan(exe, rp), exec_plan(exe, rp)
        if a[0] is None or a[:3] != b[:3]:
            errors.append("run %d (class %s) did not replay: %s / %s" % (idx, cls, a[:2], b[:2])); continue
        cls = a[0]
        text, tries = minimise(exe, plan, cls, keep_cfg=conf.get("keep_cfg", ()))
        open(rp, "w").write(text)
        a, b = exec_plan(exe, rp), exec_plan(exe, rp)
        if a[0] != cls or a[:3] != b[:3]:
            open(rp, "w").write(plan)
            a = exec_plan(exe, rp)
        note = "# %s | %s\n# run %d of base seed %d, minimised in %d attempts; replay: python3 run_check.py %s --replay %s\n" % (cls, a[1], idx, seed, tries, pid, rp)
        body = open(rp).read(); open(rp, "w").write(note + body)
        print(open(rp).read())
        print("%s: %s" % (cls, a[1]))
        reported.append((cls, a[1], rp))
    # determinism: a sample of the runs again, in other processes and with another number of workers
    det = {"repeated_runs": 0, "mismatches": 0}
    if not res["viol"]:
        m = min(n, max(40, n // 12)) if not thorough else min(n, 4000)
        again = campaign(exe, seed, m, thorough, 3, wall)
        bad = [i for i, t in again["traces"].items() if res["traces"].get(i, t) != t]
        det = {"repeated_runs": len(again["traces"]), "mismatches": len(bad)}
        if bad or again["viol"]:
            errors.append("not deterministic: runs %s differ between processes; %s" % (bad[:5], again["viol"][:3]))
    evaluations = len(res["traces"]) + len(res["viol"])
    samples = []
    for i in (list(res["traces"])[:1] or [0]):
        samples.append({"run": i, "plan": sh([exe, "gen", str(seed), str(i), str(int(thorough))], env=env()).stdout[:3000]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "violations": len(reported), "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(res.get("nt", ())),
            "rule": conf["rule"] + " A run counts as non-trivial if a fault, short or interrupted transfer, preemption, clock step or failing allocation took effect in it, or the scenario marked it so (stated above); distinct runs are counted by the hash of their event log.",
            "samples": samples,
            "simulated_runs": evaluations,
            "runs_per_hour": int(evaluations / max(t_run, 1e-6) * 3600),
            "seeds_per_hour": int(evaluations / max(t_run, 1e-6) * 3600),
            "base_seed": seed,
            "stopped_by_wall_limit": res["cut"],
            "simulated_time_s": round(res["nums"].get("simulated_ns", 0) / 1e9, 3),
            "faults_injected": res["faults"],
            "simulated_calls": res["calls"],
            "preemptions": res["nums"].get("preemptions", 0),
            "distinct_interleavings": len(res["inter"]),
            "distinct_states": len(res["states"]),
            "state_measure": conf["states"],
            "probes": res["probes"],
            "determinism": det,
            "real_components": conf["real"],
            "stub_components": conf["stub"],
            "known_findings": sorted(set(known)),
        },
        "assumptions": conf.get("assume", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    dead = [p for p in conf.get("probes", []) if not res["probes"].get(p)]
    if dead and not res["viol"] and not seeds:
        print("note: probes never hit: " + ", ".join(dead))
    print("%d runs in %.1f s, %d distinct non-trivial, %d states, %d interleavings, faults %s" % (evaluations, t_run, len(res.get("nt", ())), len(res["states"]), len(res["inter"]), json.dumps(res["faults"])))
    shutil.rmtree(os.path.join(BUILD, pid), ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
    if reported:
        print("VIOLATION property=%s replay=%s" % (pid, reported[0][2]))
        sys.exit(1)
    if errors:
        error("; ".join(errors))
    print("held")
    sys.exit(0)


if __name__ == "__main__":
    main()
