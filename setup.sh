#!/bin/bash
# Nothing to compile: verify that the interpreter, the package under test and the framework import.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out/replay
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. /opt/venv/bin/python -c "import sdepy, mc.core; print('ok', sdepy.__file__)"
