#!/usr/bin/env python3
"""checks that the toolchains are there and builds the dependencies once"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from gen import *
w = Work("setup")
exes, bad = build_harness(w, [prog(struct([F("a", U16)]))], [0])
assert exes and not bad
obs = run_cases(w, exes, [{"p": 0, "e": "le", "args": [], "input": [1, 2, 3]}])
print("setup: ok", obs[0])
r = conform(w, [prog(struct([F("a", U16)]))], [{"p": 0, "e": "le", "args": [], "input": [1, 2, 3]}], obs)
assert not r
shutil.rmtree(w.dir, ignore_errors=True)
