#!/usr/bin/env python3
"""Development aid: verifies planted changes. seedtest.py [--nocheck] [--notest] id...
applies seeded/<id>/patch.diff to /repo, builds, runs the stable tests, the demo and the property's check, then undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = [a for a in sys.argv[1:] if a.startswith("--")]
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); out = [i, meta["property"]]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    try:
        r = sh(f"bash /opt/vp/build.sh", cwd="/repo")
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append("clean-demo=%d" % r.returncode)
        if r.returncode: print(r.stdout[-1500:])
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: out.append("APPLY FAILED " + r.stdout); continue
        if "--notest" not in opts:
            sh("bash /opt/vp/test.sh /tmp/seed_out.json", cwd="/repo")
            o = json.load(open("/tmp/seed_out.json")); out.append("missing-tests=%d" % len(stable - set(o["passed"])))
        else:
            r = sh("bash /opt/vp/build.sh", cwd="/repo"); out.append("build=%d" % r.returncode)
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append("patched-demo=%d" % r.returncode)
        if not r.returncode: print(r.stdout[-1500:])
        if "--nocheck" not in opts:
            for p in meta["property"].split(","):
                t = time.time(); r = sh(f"python3 check.py {p} quick", cwd=V)
                out.append("%s check=%d (%.0fs)" % (p, r.returncode, time.time() - t)); print(r.stdout[-900:])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh", cwd="/repo")
    print("RESULT", *out, flush=True)
