#!/usr/bin/env python3
"""setup_cmd: the tools the checks need are there, and every specification parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from concurrent.futures import ThreadPoolExecutor


def parse(f):
    p = subprocess.run(["java", "-DTLA-Library=" + vlib.SPEC, "-cp", vlib.JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar",
                        "tla2sany.SANY", os.path.join(vlib.SPEC, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=vlib.SPEC)
    return f, p.returncode, p.stdout.decode(errors="replace")


fs = sorted(f for f in os.listdir(vlib.SPEC) if f.endswith(".tla"))
bad = 0
with ThreadPoolExecutor(4) as ex:
    for f, rc, out in ex.map(parse, fs):
        if rc or "*** Errors" in out:
            print("%s does not parse:\n%s" % (f, out[-2000:]))
            bad = 1
print("setup: %d modules parsed" % len(fs))
os.makedirs(vlib.BUILD, exist_ok=True)
os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
sys.exit(bad)
