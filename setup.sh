#!/bin/bash
# Nothing to compile: the machinery is Python run by the project's own interpreter. Verifies the environment.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src:$PWD/lib
/opt/venv/bin/python - <<'P' >/dev/null || exit 1
import sys
sys.path.insert(0, "lib")
import quietbus; quietbus.install()
import synthpix, h5py, scipy, numpy, PIL, ruamel.yaml, os
assert os.path.abspath(synthpix.__file__).startswith("/repo/src/"), synthpix.__file__
sys.stdout.flush(); os._exit(0)
P
echo "setup ok"
