#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and every specification parses."""
import glob, os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import core
mods = sorted(glob.glob(os.path.join(core.SPEC, "*.tla")))
cmd = ["java", "-DTLA-Library=" + core.SPEC, "-cp", core.TLA_JARS, "tla2sany.SANY", "-error-codes"] + mods
r = subprocess.run(cmd, capture_output=True, text=True, cwd="/tmp")
if r.returncode:
    print(r.stdout[-4000:], r.stderr[-2000:])
    sys.exit(1)
print("%d modules parse" % len(mods))
