#!/bin/bash
# Usage: run.sh CID quick|thorough [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cd "$here" || exit 1
export PYTHONPATH="$here" PYTHONWARNINGS=ignore
exec "$PY" -m mc.main "$@"
