"""Paths: the code under /repo, the trusted stubs, and the solver packages."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SENTINEL_REPO", "/repo")
SOLVER_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"

sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(REPO, "src"), os.path.join(VERIF, "stubs")]
if SOLVER_SITE not in sys.path:
    sys.path.append(SOLVER_SITE)
sys.setrecursionlimit(200000)
