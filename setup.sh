#!/bin/bash
# Offline set-up: unpack the Hypothesis wheels next to the checks. The check
# runner does the same on demand, so running this first is only a shortcut.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "
import sys; sys.dont_write_bytecode = True
from pbt import boot; boot.ensure_deps(); import hypothesis; print('hypothesis', hypothesis.__version__)"
