#!/usr/bin/env python3
"""Entry point: run.py <property id> [--tier quick|thorough] [--replay FILE].
Re-executes itself under the project's interpreter with a pinned environment."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ)
    env.update(VERIF_CHILD="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=os.environ.get("VERIF_REPO", "/repo") + ":" + HERE)
    env.setdefault("MPLCONFIGDIR", os.path.join(HERE, "replays", "mpl"))
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
from mc import core
sys.stdout.flush()
sys.exit(core.main(sys.argv[1:]))
