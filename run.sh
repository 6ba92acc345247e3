#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--seed N]   |   run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu HOME="${HOME:-/root}"
exec /opt/venv/bin/python check.py "$@"
