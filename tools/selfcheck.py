#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the interpreter and the solver the checks need are there."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import z3  # noqa: E402
from symx import core, transform, harness  # noqa: E402,F401
x = z3.Int("x")
s = z3.Solver()
s.add(x * 7 == 42)
assert s.check() == z3.sat and s.model()[x].as_long() == 6
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ready: z3", z3.get_version_string())
