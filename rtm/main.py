import os
import sys

for _name in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_name, '1')
sys.dont_write_bytecode = True

from rtm import engine  # noqa: E402

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(engine.replay(sys.argv[2]))
    sys.exit(engine.main(sys.argv[1:]))
