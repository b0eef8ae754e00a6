#!/bin/bash
# Nothing to build: the checks execute /repo/src directly.  Verify the pieces they rely on are there.
cd "$(dirname "$0")" || exit 2
source /opt/vp/env.sh
mkdir -p evidence replays
PYTHONPATH=/repo/src:$PWD python -c "import ocgis, symex.engine; print('ok', symex.engine.z3.get_version_string())"
