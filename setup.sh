#!/bin/bash
# Nothing to build: make sure the interpreter and its libraries are there.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c 'import numpy, scipy, matplotlib, jsonpickle; print("ok")'
