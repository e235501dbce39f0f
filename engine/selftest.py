#!/usr/bin/env python3
"""The analyser must tell right from wrong, and neither from a program with nothing to check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fc, threads

meta = fc.load_meta(os.path.join(fc.VERIF, "model", "selftest.c"))
meta["models"] = []
for v in meta["variants"]:
    try:
        got = sorted({x["rule"] for x in fc.run(meta, v, fc.Deadline(120))["violations"]})
    except fc.Broken as e:
        got = "no verdict"
    want = {"right": [], "wrong": ["within_bounds"], "memory": ["memory: index outside an array"], "nothing": "no verdict"}[v["name"]]
    if got != want:
        print("selftest %s: %s instead of %s" % (v["name"], got, want))
        sys.exit(2)
src = os.path.join(fc.VERIF, "model", "ir", "selftest.c")
for d, want in ((None, None), ("UNSYNCHRONISED", "unsynchronised-sharing"), ("LOST_UPDATE", "lost-update"), ("PLAIN_CLAIM", "unsynchronised-sharing"),
                ("USE_AFTER_RELEASE", "use-after-release"), ("LOCK_NOT_RELEASED", "lock-not-released"), ("UNSAFE_CALL", "unsafe-library-call"),
                ("REUSED_ARGUMENT", "reused-argument"), ("POINTER_SENT", "pointer-sent"), ("TOUCHED_AFTER_SEND", "touched-after-send")):
    got = sorted({r for r, i, m in threads.Program("selftest", src, ["-D" + d] if d else []).found})
    if (want not in got) if want else got:
        print("selftest of the sharing analysis %s: %s instead of %s" % (d, got, want))
        sys.exit(2)
print("selftest ok")
