"""The data in use are the observables in the requested window."""
import copy

import hypothesis.strategies as st
import numpy as np
import pandas as pd

from vlib import mods
from vlib.core import Violation, expect, must_work, quiet
from vlib.part import Part
from checks.C03 import warm  # noqa

ASSUMPTIONS = [
    "indices are sorted and without duplicates",
    "partial dates (years, quarters) are inclusive on both sides, as in pandas",
]

OBS = ["GDP", "Infl", "FFR"]


@st.composite
def one(draw):
    n = draw(st.integers(1, 24))
    kind = draw(st.sampled_from(["date", "date", "period", "int", "range", "str", "year", "month"]))
    y0 = draw(st.integers(1975, 2010))
    off = draw(st.integers(0, 3))
    cols = draw(st.permutations(OBS + ["other", "more"]))
    drop = draw(st.sampled_from([None, None, None, None, None, None, None, 0, 1, 2]))
    vals = [[draw(st.integers(-900, 900)) / 64.0 for _ in cols] for _ in range(n)]
    holes = [[draw(st.integers(0, n - 1)), draw(st.integers(0, len(cols) - 1))] for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))]
    a, b = draw(st.integers(-2, n + 1)), draw(st.integers(-2, n + 1))
    return {
        "n": n,
        "kind": kind,
        "y0": y0,
        "off": off,
        "cols": cols,
        "drop": drop,
        "vals": vals,
        "holes": holes,
        "start": None if draw(st.integers(0, 2)) == 0 else a,
        "end": None if draw(st.integers(0, 2)) == 0 else b,
        "how": draw(st.sampled_from(["label", "label", "year", "text"])),
        "via": draw(st.sampled_from(["load_data", "get_data"])),
        "bad": draw(st.integers(0, 30)) == 0,
        "mut": draw(st.booleans()),
        "ints": draw(st.integers(0, 4)) == 0,
    }


@st.composite
def case(draw):
    return {"frames": [draw(one()) for _ in range(draw(st.integers(1, 4)))]}


def labels(c):
    """(index, ordinal of each row, ordinal -> argument) with plain integer arithmetic."""
    n, k = c["n"], c["kind"]
    q0 = c["y0"] * 4 + c["off"]
    if k in ("date", "period", "str"):
        qs = [q0 + i for i in range(n)]
        names = ["%dQ%d" % (q // 4, q % 4 + 1) for q in qs]
        if k == "date":
            ends = {1: "03-31", 2: "06-30", 3: "09-30", 4: "12-31"}
            index = pd.DatetimeIndex(["%d-%s" % (q // 4, ends[q % 4 + 1]) for q in qs])
        elif k == "period":
            index = pd.PeriodIndex(names, freq="Q")
        else:
            index = pd.Index(names)
        return index, qs, "q"
    if k == "month":
        ms = [c["y0"] * 12 + c["off"] + i for i in range(n)]
        index = pd.DatetimeIndex(["%d-%02d-01" % (x // 12, x % 12 + 1) for x in ms])
        return index, ms, "m"
    if k == "year":
        ys = [c["y0"] + i for i in range(n)]
        return pd.Index(ys), ys, "i"
    if k == "int":
        ys = [3 * i - 4 for i in range(n)]
        return pd.Index(ys), ys, "i"
    return pd.RangeIndex(n), list(range(n)), "i"


def bound(c, i, unit, ords, side):
    """The argument to pass and the smallest/largest row ordinal it allows."""
    o = ords[0] + i if unit != "i" or c["kind"] != "int" else ords[0] + 3 * i + 1
    if unit == "i":
        return o, o
    if unit == "m":
        y, mth = o // 12, o % 12 + 1
        if c["how"] == "year":
            return y, (y * 12 if side == "start" else y * 12 + 11)
        t = "%d-%02d" % (y, mth)
        return (t if c["how"] == "text" else pd.Timestamp(t + "-01")), o
    y, qq = o // 4, o % 4 + 1
    if c["kind"] == "str":
        return "%dQ%d" % (y, qq), o
    if c["how"] == "year":
        return (y if c["kind"] == "date" else str(y)), (y * 4 if side == "start" else y * 4 + 3)
    t = "%dQ%d" % (y, qq)
    if c["how"] == "text":
        return t, o
    if c["kind"] == "period":
        return pd.Period(t, freq="Q"), o
    ends = {1: "03-31", 2: "06-30", 3: "09-30", 4: "12-31"}
    return pd.Timestamp("%d-%s" % (y, ends[qq])), o


_m = {}


def run(case, rec):
    if not _m:
        m0 = mods.read(mods.nk())
        with quiet():
            m0.set_par("calib")
        _m["m"] = m0
    m = _m["m"]
    for k in ("data",):
        m.__dict__.pop(k, None)
        m.fdict.pop(k, None)
    names = list(m.observables)
    hit = 0
    before = None
    for c in case["frames"]:
        index, ords, unit = labels(c)
        cols = list(c["cols"])
        V = np.array(c["vals"], float)
        if c["ints"]:
            V = np.round(V)
        for i, j in c["holes"]:
            V[i, j] = np.nan
        df = pd.DataFrame(V, index=index, columns=cols)
        if c["ints"] and not c["holes"]:
            df = df.astype(int)
        if c["drop"] is not None:
            df = df.drop(columns=OBS[c["drop"]])
        kw = {}
        lo, hi = -np.inf, np.inf
        if c["start"] is not None:
            kw["start"], lo = bound(c, c["start"], unit, ords, "start")
        if c["end"] is not None:
            kw["end"], hi = bound(c, c["end"], unit, ords, "end")
        rows = [i for i, o in enumerate(ords) if lo <= o <= hi]
        want = None
        if c["drop"] is None:
            want = np.array([[V[i, cols.index(z)] for z in names] for i in rows]).reshape(len(rows), len(names))
        keep = df.copy()
        f = getattr(m, c["via"])
        arg = df.to_numpy() if c["bad"] else df
        fails = c["bad"] or want is None or np.isnan(want).any()
        if fails:
            try:
                with quiet():
                    f(arg, **kw)
            except Exception:
                rec.label("refused")
            else:
                raise Violation("incomplete data were accepted")
            if before is not None:
                expect(m.data.equals(before), "a refused call changed the data")
            else:
                expect(not hasattr(m, "data"), "a refused call left data behind")
            hit += 1
            continue
        if not rows and kw:
            # nothing in the window: whatever pandas makes of it
            with quiet():
                try:
                    f(arg, **kw)
                except Exception:
                    pass
            before = copy.deepcopy(m.data) if hasattr(m, "data") else None
            continue
        with must_work("load_data(%s) with %s index" % (kw, c["kind"])):
            got = f(arg, **kw)
        expect(df.equals(keep), "load_data changed its input")
        if c["mut"]:
            # what happens to the frame afterwards is of no concern
            df.iloc[:, :] = 999
        for tag, d in (("returned", got), ("model's", m.data)):
            expect(list(d.columns) == names, "%s data: columns %s, observables %s" % (tag, list(d.columns), names))
            expect(list(d.index) == [index[i] for i in rows], "%s data: rows %s to %s, expected %s to %s (%s)" % (tag, d.index[:1].tolist(), d.index[-1:].tolist(), index[rows[0]], index[rows[-1]], kw))
            expect(np.array_equal(np.asarray(d, float), want), "%s data differ from the frame" % tag)
        if hasattr(m, "filter"):
            del m.filter
        with must_work("create_filter"):
            m.create_filter(ftype="KF")
        expect(np.array_equal(np.asarray(m.Z, float), want), "the data of the filter differ from the frame")
        with must_work("mask"):
            mk = m.mask
        expect(list(mk.columns) == list(m.shocks), "mask: columns %s, shocks %s" % (list(mk.columns), list(m.shocks)))
        expect(len(mk) == len(rows) - 1 and list(mk.index) == [index[i] for i in rows[:-1]], "mask: %d rows for %d data points" % (len(mk), len(rows)))
        expect(np.isnan(np.asarray(mk, float)).all(), "mask is not empty")
        with quiet():
            try:
                mk.iloc[:, 0] = 1.0
            except Exception:
                pass
        expect(np.array_equal(np.asarray(m.data, float), want) and np.isnan(np.asarray(m.mask, float)).all(), "changing the mask changed the data or the next mask")
        with must_work("create_obs_cov"):
            R = m.create_obs_cov(0.3)
        var = ((want - want.mean(axis=0)) ** 2).mean(axis=0) * 0.09
        expect(np.allclose(R, np.diag(var), rtol=1e-10, atol=1e-12), "create_obs_cov: %s, expected variances %s" % (R.tolist(), var.tolist()))
        before = m.data.copy()
        hit += 1
        rec.label(c["kind"])
        if kw:
            rec.label("window")
    return "data" if hit else False


PARTS = [
    Part(
        "data",
        case,
        run,
        "1-4 frames (quarters, months, years, integers, strings; columns in any order with others among them, holes, missing columns) loaded one after the other with or without start and end in several notations; non-trivial: data in use, or refused",
        quick=4000,
        cap=30,
    ),
]
