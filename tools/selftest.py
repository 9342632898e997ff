"""Setup: builds the extensions of the current tree and checks that the solver and the symbolic front ends load."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import symx
from symx import runner, fort
import z3
rc, out = runner.build_ext()
print('extensions:', 'ok' if rc == 0 else out[-500:])
x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
for e in fort.extensions():
    fort.preload(e)
    print('front end:', e)
