#!/bin/bash
# Nothing to compile: checks that the interpreter imports the library from the working tree and that the
# reference models agree with each other.
cd "$(dirname "$0")" || exit 1
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 /opt/pypyvenv/bin/python -B -m rv.selftest
