#!/bin/bash
# nothing to build: verify that the interpreter, the oracles' dependencies and the code under test load
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
import numpy, scipy, geographiclib, pyproj
from rtm import env, ref
assert numpy.finfo(ref.L).eps < 2e-19, 'needs 80-bit long double'
nv = env.load()
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'pyproj', pyproj.__version__, 'nvector', nv.__file__)
PY
