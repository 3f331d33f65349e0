"""python run.py <property id>: run the check of one property."""
import importlib
import os
import sys

os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):      # small matrices only
    os.environ.setdefault(v, '1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'harness'), os.path.join(HERE, 'checks')]
import qv  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    sys.exit(qv.main(pid, mod.check))
