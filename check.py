#!/opt/venv/bin/python
"""usage: check.py C01 [--tier quick|thorough] [--only REGEX] [--serial] [-v]
          check.py --replay replays/C01.json"""
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS', 'BLOSC_NTHREADS'):
    os.environ[v] = '1'

from vsym import run

if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        run.replay(sys.argv[2])
    elif sys.argv[1:] == ['--selftest']:
        import numpy, tables, z3  # noqa
        s = z3.Solver()
        x = z3.Real('x')
        s.add(x > 1, x * 2 < 3)
        assert s.check() == z3.sat
        print('z3 %s, numpy %s, tables %s' % (z3.get_version_string(), numpy.__version__, tables.__version__))
    else:
        run.main()
