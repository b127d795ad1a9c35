"""Driving pydsge through its public interface, by variable name."""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np

from . import modelgen
from .core import must_work, quiet

_n = itertools.count()


def scratch():
    base = os.environ.get("VERIF_SCRATCH") or None
    return tempfile.mkdtemp(prefix="case%d_" % next(_n), dir=base)


class Folder:
    """A scratch folder that goes away with the case."""

    def __enter__(self):
        self.path = scratch()
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def read(spec, style=None, nocache=True):
    from pydsge import DSGE

    with Folder() as d:
        f = modelgen.write(spec, d, style=style)
        with must_work("reading a valid model"):
            m = DSGE.read(f, nocache=nocache)
    m.debug = True  # serial: nothing here is about the process pool
    return m


def nk():
    """A small model for what does not depend on the model."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "nk.json")) as f:
        return json.load(f)


def setp(m, par=None, **kw):
    """Set calibrated parameters, `par` (a dict) overriding some."""
    v = list(m.par_fix)
    for k, x in (par or {}).items():
        v[m.par_names.index(k)] = x
    return m.set_par([float(x) for x in v], **kw)


def shockvec(m, d):
    e = np.zeros(len(m.shocks))
    for k, v in d.items():
        e[list(m.shocks).index(k)] += v
    return e


def pick(m, x, names):
    """Values of the named variables in a state vector (or an array of them)."""
    ix = [list(m.vv).index(v) for v in names]
    return np.asarray(x)[..., ix]


def zero(m):
    return np.zeros(len(m.vv))
