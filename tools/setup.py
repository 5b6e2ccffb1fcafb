"""setup_cmd: nothing to build; check that the interpreter and z3 load"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symex import z3load        # noqa: E402
z3 = z3load.load()
s = z3.Solver()
x = z3.Int('x')
s.add(x > 1, x < 3)
assert str(s.check()) == 'sat'
print('ok: z3', z3.get_version_string())
