#!/usr/bin/env python3
"""seeds.py [ID...] [--all-checks]: run the check of each seeded change's property (or all checks) on a copy of /repo with the change."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="dwseed-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/repo"])
        subprocess.check_call(["git", "-C", w + "/repo", "apply", d + "/patch.diff"])
        r = subprocess.run([sys.executable] + ([V + "/engine/threads.py"] if prop == "C27" and "--all-checks" not in sys.argv else [V + "/engine/dwcheck.py", "ALL" if "--all-checks" in sys.argv else prop]), text=True, capture_output=True, env=dict(os.environ, DW_REPO=w + "/repo"))
        hit = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        why = [l.strip() for l in (r.stdout + r.stderr).splitlines() if "violated:" in l or "broken" in l]
        print("%-28s %s exit %d %s\n      %s" % (i, "CAUGHT" if hit else "missed", r.returncode, ",".join(hit), " | ".join(why[:3])[:300]), flush=True)
    finally:
        shutil.rmtree(w)
