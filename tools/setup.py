"""Offline set-up: verifies the interpreter and the libraries the checks use; builds nothing."""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = "/opt/venv/bin/python"
os.makedirs(os.path.join(R, "evidence"), exist_ok=True)
os.makedirs(os.path.join(R, "replays"), exist_ok=True)
env = dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(R, "replays", "mpl"))
sys.exit(subprocess.call([py, "-c", "import numpy, scipy, pandas, cvxopt, cvxopt.glpk, matplotlib; print('ok')"], env=env))
