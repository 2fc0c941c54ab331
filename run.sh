#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] [--replay FILE]: run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:${KATCP_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m mc.main "$@"
