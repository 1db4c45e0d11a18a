#!/bin/bash
# usage: run.sh PROPERTY quick|thorough
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/pyvc.XXXXXX)
mkdir -p "$d/home"
cd "$d" || exit 3
HOME=$d/home PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore \
CUDA_VISIBLE_DEVICES= PYTHONHASHSEED=0 \
    /opt/venv/bin/python "$here/check.py" "$@"
rc=$?
cd /
rm -rf "$d"
exit $rc
