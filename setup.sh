#!/bin/bash
# Nothing is compiled: the simulator is Python and imports gama from /repo. Checks that it runs here.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -m dstsim.main selftest 2 C03
