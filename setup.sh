#!/bin/bash
# nothing to build: checks that the interpreter, the library under test and hypothesis can be imported
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here" || exit 2
KERAS_BACKEND=torch exec "$PY" -c "
from pbt import boot; boot.boot('torch', 'float64')
import hypothesis, decomon; print('ok', hypothesis.__version__)"
