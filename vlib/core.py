"""Outcome types and the recording of what a run covered."""
import contextlib
import hashlib
import io
import json
import os
import traceback

import numpy as np


class Violation(Exception):
    """The property is broken on this case (raised by an oracle only)."""


class Known(Exception):
    """The case matches a finding listed in known_findings.json."""


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    return o


def digest(case):
    return hashlib.sha1(
        json.dumps(jsonable(case), sort_keys=True).encode()
    ).hexdigest()


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


class Unexpected(Violation):
    pass


@contextlib.contextmanager
def must_work(what):
    """A call on a valid input: an exception out of it breaks the property."""
    try:
        with quiet():
            yield
    except Violation:
        raise
    except Exception as e:  # noqa
        tb = traceback.format_exc(limit=-6)
        raise Unexpected(
            "%s raised %s: %s\n%s" % (what, type(e).__name__, e, tb)
        ) from e


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.labels = {}
        self.skipped = 0

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def dump(self):
        return {
            "evaluations": self.evaluations,
            "nontrivial": sorted(self.nontrivial),
            "samples": self.samples,
            "labels": self.labels,
            "skipped": self.skipped,
        }


def close(a, b, rtol=1e-7, atol=1e-9, scale=None):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if scale is None:
        scale = max(np.max(np.abs(a), initial=0), np.max(np.abs(b), initial=0))
    d = np.abs(a - b)
    return bool(np.all(d <= atol + rtol * scale))


def expect_close(a, b, what, rtol=1e-7, atol=1e-9, scale=None):
    if not close(a, b, rtol, atol, scale):
        a = np.asarray(a, float)
        b = np.asarray(b, float)
        if a.shape != b.shape:
            raise Violation("%s: shapes %s and %s" % (what, a.shape, b.shape))
        d = np.abs(a - b)
        d = np.where(np.isnan(d), np.inf, d)
        i = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim else ()
        raise Violation(
            "%s: got %r, expected %r (at %s; scale %s)"
            % (what, float(a[i]), float(b[i]), tuple(int(j) for j in i), scale)
        )


def expect(cond, what):
    if not cond:
        raise Violation(what)
