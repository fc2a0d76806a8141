#!/bin/bash
# exit 0: the property holds in this case; nonzero: it is broken. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "${tmp:?}"' EXIT
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
NUMBA_CACHE_DIR="$tmp/numba" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" DEMO_DIR="$tmp" "$py" "$here/demo.py"
