#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -m dstsim.main check "$@"
