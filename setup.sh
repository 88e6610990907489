#!/bin/bash
# nothing to build: the checks import irtorch from /repo's working tree; this only verifies that the tools are there
here="$(cd "$(dirname "$0")" && pwd)"; cd "$here" || exit 1
chmod +x run.sh
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import pbt.gen; print('ready')"
