#!/bin/bash
# Nothing is compiled: the simulator imports the library from /repo/src. Verifies that it can.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from dst import main
main.setup_jax()
import bijx; print('bijx from', bijx.__file__)"
