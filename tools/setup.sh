#!/bin/sh
# nothing to build: the checks import /repo's sources directly; verify the interpreter works
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 EC_BACKEND_FORCE=1 EC_BACKEND=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c "import monero_glue.xmr.crypto" 
