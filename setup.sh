#!/bin/bash
# Nothing to compile: the framework is Python, run by /opt/venv/bin/python against /repo's sources.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "/repo"); import torch, numpy, scipy, ocnn; print("ok", torch.__version__)'
