#!/bin/bash
# usage: replay.sh FILE [-v]: runs the recorded execution again; exit 1 and a VIOLATION line if it fails again
f=$(realpath "$1"); shift
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -m dstsim.main replay "$f" "$@"
