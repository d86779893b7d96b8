#!/usr/bin/env python3
"""build govc and warm the build cache of the contract executions"""
import os, sys, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, json
check.build_govc()
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for p in sorted(os.listdir(os.path.join(check.VERIF, "contracts"))):
        r = check.Run(p, d)
        r.build()
        break
finally:
    shutil.rmtree(d, ignore_errors=True)
