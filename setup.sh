#!/bin/bash
# Nothing is compiled: the checks are Python and import dhg from /repo's working tree. Verify that the interpreter and its packages are there.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "import torch, numpy, scipy, optuna, requests, matplotlib" && echo setup ok
