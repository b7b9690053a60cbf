#!/bin/sh
# Nothing to build: the checks are Python and import /repo's working tree. Verify that the pieces are there.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '/repo'); import syncanysql, checks, vlib.harness; print('ok', syncanysql.__file__)"
