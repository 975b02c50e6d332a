#!/bin/bash
# Nothing to build: checks import /repo's working tree. Only verify that the tools are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import reactpy, hypothesis; print('reactpy', reactpy.__version__, 'hypothesis', hypothesis.__version__)"
