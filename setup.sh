#!/bin/bash
# Nothing has to be built: the checks are Python and compile /repo's numba code at run time.
# This only confirms that the interpreter, the package under test and Hypothesis are importable.
cd "$(dirname "$0")" || exit 1
S=$(mktemp -d) || exit 1
trap 'rm -rf "$S"' EXIT
export VBTCHECK_SCRATCH=$S PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from vbtcheck import core
core.setup_path()
import numpy, pandas, numba, hypothesis
print('ok: hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'numba', numba.__version__)
" || exit 1
