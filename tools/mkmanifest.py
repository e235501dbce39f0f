#!/usr/bin/env python3
"""Rewrites MANIFEST.json: a property is claimed when a check implements it."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
EVA = ("static analysis: whole-program abstract interpretation (Frama-C/Eva) of the node/client source under an "
       "environment model, with obligations on observable behaviour")
NOTE = ("Sound abstract interpretation of every path of the analysed program for the enumerated environment choices; "
        "capacities scaled down, environments bounded as described in DESIGN.md.")
claimed = {}
for f in sorted(glob.glob(ROOT + "/scenarios/*.c")):
    m = re.search(r"/\*META(.*?)\*/", open(f).read(), re.S)
    for p in json.loads(m.group(1))["props"]:
        claimed.setdefault(p, []).append(os.path.basename(f)[:-2])
claimed["C27"] = ["threads"]
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p not in claimed:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
        continue
    if p == "C27":
        checks.append({"property": p, "quick_cmd": "python3 /verif/engine/threads.py",
                       "technique": "static analysis: interprocedural provenance, lockset and slot-typestate analysis over the LLVM IR of the whole programs",
                       "level": "other", "level_note": "Covers every function threads can run; memory reached from a thread's own element or slot is taken to be its own."})
        continue
    checks.append({"property": p, "quick_cmd": "python3 /verif/engine/dwcheck.py " + p,
                   "thorough_cmd": "python3 /verif/engine/dwcheck.py %s --tier thorough" % p,
                   "technique": EVA, "level": "other", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
print("claimed", [c["property"] for c in checks])
