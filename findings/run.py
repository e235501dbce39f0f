#!/usr/bin/env python3
"""Shows the defects listed in ../known_findings.jsonl on the real programs: run.py [COMMIT...]

For each fix, its demonstration (demos.py) is run against the tree right before it, where it must
fail, and against the current tree, where it must not. Needs the history of /repo. Everything is
built and run in a scratch directory, removed at the end. This is no check: nothing depends on it."""
import os, shutil, subprocess, sys, tempfile, inspect
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DW_REPO", "/repo")
os.environ.update(DW_BIN="", DW_SRC="")
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import demos
W = tempfile.mkdtemp(prefix="dwfind-")
UNITS = {"dw_node": "dw_node thread_affinity priority_queue request connection message address_utils",
         "dw_client": "dw_client ccmd distrib thread_affinity queue connection request message address_utils"}

def build(rev, flags):
    d = os.path.join(W, rev.replace("^", "-before") + "".join(c for c in flags if c.isalnum()))
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.check_call("git -C %s archive %s src | tar -x -C %s" % (REPO, rev, d), shell=True)
        for p, u in UNITS.items():
            subprocess.check_call("gcc -w -g %s -o %s/%s %s -lpthread -lm" % (flags or "-O3", d, p, " ".join("%s/src/%s.c" % (d, x) for x in u.split())), shell=True)
    return d

def run(name, d):
    env = dict(os.environ, DW_BIN=d, DW_SRC=d + "/src")
    try: r = subprocess.run([sys.executable, "-B", os.path.join(HERE, "demos.py"), name], env=env, capture_output=True, text=True, timeout=280)
    except subprocess.TimeoutExpired: return 3, "timeout"
    return r.returncode, ((r.stdout + r.stderr).strip().splitlines() or [""])[-1][:130]

ok = n = 0
try:
    for name, (f, flags) in demos.DEMOS.items():
        if sys.argv[1:] and name not in sys.argv[1:]: continue
        n += 1
        b, bt = run(name, build(name + "^", flags))
        a, at = run(name, build("HEAD", flags))
        good = b == 1 and a == 0
        ok += good
        print("%s %-4s before: %s | now: %s" % (name, "ok" if good else "BAD", bt if b else "passes", at if a else "passes"), flush=True)
finally:
    shutil.rmtree(W, ignore_errors=True)
print("%d of %d shown" % (ok, n))
sys.exit(ok != n)
