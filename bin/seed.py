#!/usr/bin/env python3
"""seed.py ID PROP...: apply seeded/ID/patch.diff to /repo, build, run the tests and the
demonstration, run the checks, undo.  Development tool; no check uses it.
   --nocheck  skip checks    --notest skip the test-suite"""
import json, os, subprocess, sys, time
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
sid = args[0]; d = V + "/seeded/" + sid
meta = json.load(open(d + "/meta.json")); props = args[1:] or [meta["property"]]
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
res = {}
try:
    if "--nobase" not in sys.argv:
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0
        r = sh("bash %s/demo.sh" % d, cwd=R); res["demo_base"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(a.stdout); sys.exit(1)
    if "--notest" not in sys.argv:
        t = sh("bash /opt/vp/test.sh /tmp/seedout.json")
        o = json.load(open("/tmp/seedout.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
        missing = [x for x in stable if x not in o["passed"]]
        res["tests_broken"] = missing[:5]
    else:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(b.stdout[-2000:])
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=R); res["demo_patched"] = r.returncode
    print("demo:", r.stdout[-400:])
    if "--nocheck" not in sys.argv:
        for p in props:
            t0 = time.time(); c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py %s quick" % p, cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res["check_" + p] = (c.returncode, len(v), round(time.time() - t0, 1))
            print(c.stdout[:1500])
finally:
    sh("git -C /repo checkout -- .")
print(json.dumps(res))
