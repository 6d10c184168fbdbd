#!/usr/bin/env python3
"""Writes MANIFEST.json from scen_conf.py and properties.jsonl."""
import json, os
from scen_conf import CONF
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
NA = {
 "C40": "pure functions of their string arguments: no schedule, clock, I/O, fault or multi-party behaviour a simulator could vary (the parts that reach files and logs - quoting, escapes, stringf - are decided where they are used, by C01, C05, C06, C09 and C11)",
 "C41": "pure functions of path texts: no schedule, clock, I/O or fault is involved (their use on a file system is decided by C07, C08, C09 and C10)",
 "C42": "closed numeric formulas: no schedule, clock, I/O, fault or history is involved",
 "C43": "a deterministic function of the sample sequence handed in by one caller; simulated time and faults do not reach it (time is an argument), so a simulator has nothing to decide",
 "C44": "pure conversions of values: no schedule, clock, I/O or fault (failing memory while loading is decided by C03)",
 "C45": "pure functions of names and constant tables: no schedule, clock, I/O or fault",
}
NOTE = {
 "fault": "Seeded search: every explored run is judged completely by a reference model and the simulator's own record, but runs not explored are not covered.",
}
checks = []
for pid in props:
    if pid in CONF:
        c = CONF[pid]
        checks.append({"property": pid,
            "quick_cmd": "python3 run_check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 run_check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation with fault injection (%s)" % c.get("tech", "seeded runs against a reference model"),
            "level": "exploration",
            "level_note": NOTE["fault"] + " Trusted: the simulator (/verif/sim), the scenario's reference model" + ("; assumes " + "; ".join(c["assume"]) if c.get("assume") else "") + ". Real: " + "; ".join(c["real"]) + ". Stubbed: " + "; ".join(c["stub"]) + "."})
missing = [p for p in props if p not in CONF and p not in NA]
for p in missing: NA[p] = "check not built yet"
m = {"version": 1, "setup_cmd": "python3 -m py_compile run_check.py scen_conf.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
     "notes": "No hooks in /repo: the operating system calls, clocks, memory allocation and threads are intercepted at the C library boundary by /verif/sim. Commits in /repo are fixes of genuine defects (known_findings.txt)."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
