#!/usr/bin/env python3
"""Builds the instrumented libraries and every harness program."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
C = json.load(open(os.path.join(vbuild.VERIF, "bin", "checks.json")))
# (the race detector flavour, used by one check only, is built by that check)
for fl in ["asan"]:
    ps = sorted({p for c in C.values() if c.get("flavour", "asan") == fl for p in c["programs"]})
    print(vbuild.build(fl, ps), ps)
