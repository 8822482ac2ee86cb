"""Setup: nothing to build; confirms that the interpreter, OpenMDAO, omtools and z3 load."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from symot import solve, model  # noqa: E402
import omtools.api  # noqa: E402,F401
import z3  # noqa: E402
x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
print('ok: omtools from %s, z3 %s' % (model.REPO, z3.get_version_string()))
