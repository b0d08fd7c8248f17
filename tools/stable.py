#!/usr/bin/env python3
"""Build /repo, run its tests, say which stable ones fail (development aid)."""
import json, os, subprocess, sys
out = f"/tmp/stable.{os.getpid()}.json"
if "--no-build" not in sys.argv:
    subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
subprocess.run(["bash", "/opt/vp/test.sh", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
o = json.load(open(out))["passed"]
os.unlink(out)
bad = [x for x in b if x not in o]
print("failing:", bad) if bad else print("ALL STABLE PASS")
