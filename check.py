#!/usr/bin/env python3
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import core
from checks import CHECKS
if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
    print("usage: check.py <property id>  (%s)" % " ".join(sorted(CHECKS)), file=sys.stderr)
    sys.exit(2)
c = CHECKS[sys.argv[1]]
sys.exit(core.main(sys.argv[1], c["fn"], c["level"]))
