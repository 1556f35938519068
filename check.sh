#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   or   check.sh --replay <file>
# Runs one property's check against the current working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here" || exit 2
exec "$PY" -m pbt.run "$@"
