#!/bin/bash
# Nothing to build: qadence is pure Python and imported from /repo's working tree. Check the environment.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
exec /opt/venv/bin/python -c "import hypothesis, numpy, scipy, torch; print('ok')"
