#!/usr/bin/env python3
"""Setup: checks that the solver and the package can be loaded (nothing is
installed or compiled)."""
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo') + '/src')
import z3                                                   # noqa: E402
import numpy                                                # noqa: E402
import scipy                                                # noqa: E402
import mpmath                                               # noqa: E402
import sparse_ir                                            # noqa: E402

s = z3.Solver()
x = z3.Real('x')
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
s.add(x > 2)
assert s.check() == z3.unsat
print('z3', z3.get_version_string(), 'numpy', numpy.__version__,
      'scipy', scipy.__version__, 'mpmath', mpmath.__version__,
      'package', os.path.dirname(sparse_ir.__file__))
