#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--facet NAME]."""

import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ)
    env.update(
        VERIF_REEXEC="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
    )
    env.pop("PYTHONPATH", None)
    py = PY if os.path.exists(PY) else sys.executable
    sys.stdout.flush()
    os.execve(py, [py, "-X", "faulthandler", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
