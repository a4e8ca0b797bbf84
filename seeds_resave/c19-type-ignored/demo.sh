#!/bin/bash
export PATH=/opt/venv/bin:$PATH
unset FORCE_STDLIB_ONLY DEBUG
export PYTHONDONTWRITEBYTECODE=1
exec python "$(dirname "$0")/demo.py"
