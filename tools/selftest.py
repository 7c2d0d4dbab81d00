#!/usr/bin/env python3-vt
"""setup: the engine, the solver and the project's interpreter are usable."""
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import z3  # noqa
s = z3.Solver()
x = z3.String('x')
s.add(z3.PrefixOf('ab', x), z3.Length(x) == 3)
assert s.check() == z3.sat
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import cryptojwt, filelock'])
import symx.core, symx.loader  # noqa
print('ok')
