#!/bin/bash
# Nothing to build: check that the interpreter and the code under test load.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export PYTHONPATH="$PWD:${KATCP_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
import greenlet, tornado, os, sys
from mc import env
env.load()
print('ok', sys.version.split()[0], tornado.version)
sys.stdout.flush()
os._exit(0)"
