#!/bin/bash
# Nothing to compile: the checks are Python and import the library from /repo/src.
cd "$(dirname "$0")" && mkdir -p evidence && . /opt/torchrir/env.sh && PYTHONPATH=/repo/src:. /opt/venv/bin/python -c "import torch, numpy, scipy, soundfile, mc.core"
