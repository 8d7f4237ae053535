#!/bin/bash
# run.sh ID [quick|thorough] [--replay FILE]: decide one property on /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD" HOME=/root
# Never take a stale .pyc of the tree under test for its source.
PYTHONPYCACHEPREFIX=$(mktemp -d) || exit 2
export PYTHONPYCACHEPREFIX
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv/bin/python -W ignore -m mc.core "$@"
