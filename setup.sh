#!/bin/bash
# Nothing to download: checks that the pieces are there and that /repo imports.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH=/repo
/opt/venv/bin/python -c 'import jax, numpy, xtructure; print("xtructure", xtructure.__file__, "jax", jax.__version__)'
