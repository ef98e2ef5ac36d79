import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)

# hypothesis (pure python) comes from the tooling environment, which has the same
# Python version; appended last so that numpy/scipy/numba stay those of the project.
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
