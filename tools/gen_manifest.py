#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "explicit-state exploration of operation histories on the real code, lockstep with a POSIX file model",
 "C02": "history exploration on the real code with kill and remount after every history, durability model",
 "C03": "history exploration on the real code, backing store compared with the durability model after every operation",
 "C04": "exploration of all (before, clear, after) histories on the real code, lockstep with the model",
 "C05": "exploration of all (before, checkpoint, after) histories on the real code, lockstep with the model",
}
EXTRA = HERE + "/techniques.json"
if os.path.exists(EXTRA):
    T.update(json.load(open(EXTRA)))
props = [json.loads(l) for l in open(HERE + "/../properties.jsonl")]
NOTE = ("Bounded exhaustive: every history, parameter combination, crash point or schedule of the scenarios listed in the evidence is executed "
        "against the real LazyFS code (compiled from /repo, libc calls interposed) and judged by an independent reference model; nothing is "
        "sampled. Trusts the harness's emulation of libfuse/kernel behaviour and the reference model; says nothing beyond the stated bounds.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "python3 bin/check %s quick" % i, "thorough_cmd": "python3 bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "machinery under construction"})
json.dump({"version": 1, "setup_cmd": "python3 bin/build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checker links /repo's sources with interposed libc calls (see DESIGN.md)."},
          open(HERE + "/../MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
