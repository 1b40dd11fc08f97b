#!/bin/bash
# Nothing to compile: the harness is Python and imports direpack from /repo/src.
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg \
 /opt/venv/bin/python -W ignore -c 'import sys; sys.path.insert(0,"/repo/src"); import direpack; print("direpack from", list(direpack.__path__))'
