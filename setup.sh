#!/bin/bash
# Nothing has to be built: the checks are Python and import /repo's tree.
. /opt/vp/env.sh
cd /repo && exec "$PY" -c "import wake_t, numpy, scipy, h5py; print('ok')"
