#!/bin/bash
# Usage: against.sh DIR CID [quick|thorough]: run a check on a copy of the
# repository (development only; registered checks always run on /repo).
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
cd "$here" || exit 1
export PYTHONPATH="$1:$here" PYTHONWARNINGS=ignore
exec "$PY" -m mc.main "$2" "${3:-quick}"
