"""Process set-up shared by every worker: environment, import paths, silencing.

Must be imported before numpy / numba / pydsge.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True


class _VTFinder:
    """Serve only hypothesis (and what it needs) from the verification venv, so
    that nothing of the project's own environment is shadowed."""

    names = ("hypothesis", "_hypothesis", "sortedcontainers")

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        top = name.split(".")[0]
        if path is None and top.startswith(cls.names):
            import importlib.machinery as im

            return im.PathFinder.find_spec(name, [VT_SITE])
        return None


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not any(f is _VTFinder for f in sys.meta_path):
        sys.meta_path.append(_VTFinder)
    import logging

    logging.disable(logging.INFO)


def import_pydsge():
    """Import the package under test from the working tree, and nothing else."""
    import pydsge

    where = os.path.realpath(os.path.dirname(pydsge.__file__))
    want = os.path.realpath(os.path.join(REPO, "pydsge"))
    if where != want:
        raise RuntimeError("pydsge imported from %s, not %s" % (where, want))
    import numpy as np

    np.set_printoptions(threshold=1000)
    return pydsge
