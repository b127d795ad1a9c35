"""Decompositions: contributions of the shocks add up to what is decomposed."""
import copy

import hypothesis.strategies as st
import numpy as np
import pandas as pd

from vlib import mods, cases
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, warm, big  # noqa
from checks.C11 import vec

ASSUMPTIONS = [
    "periods in which the shocks' relative contributions to the constraint nearly cancel (weights above 1e4) are not judged, nor those after",
    "the weights by which the constant of a binding constraint is attributed to shocks are not prescribed; they are the same for all variables and add up to one",
]


@st.composite
def case(draw):
    spec = draw(cases.model(("gen", "gen", "nk"), min_shocks=2, max_shocks=3))
    T = draw(st.integers(1, 10))
    samples = []
    for _ in range(draw(st.integers(1, 3))):
        samples.append(
            {
                "par": draw(cases.params(spec, edge=draw(st.integers(0, 3)) == 0)),
                "pre": draw(st.one_of(st.just([]), cases.shock_rows(spec, 1, 3, top=600))),
                "rows": draw(cases.shock_rows(spec, T, T, top=draw(st.sampled_from([200, 600])))),
            }
        )
    off = draw(st.sampled_from([None, None] + spec["shocks"]))
    if off:
        for s in samples:
            for r in s["rows"]:
                r.pop(off, None)
            s["pre"] = []
    return {
        "spec": spec,
        "samples": samples,
        "linear": draw(st.integers(0, 3)) == 0,
        "off": off,
        "h": draw(st.integers(1, 5)),
        "frame": draw(st.booleans()),
    }


def prepare(c, m, other=None):
    spec = c["spec"]
    out = []
    for s in c["samples"]:
        ref = Ref(spec, s["par"])
        if not usable(ref):
            continue
        try:
            with quiet():
                m.set_par(vec(spec, s["par"]))
        except ValueError:
            continue
        if out and list(m.vv) != out[0][4]:
            if len(m.vv) == len(out[0][4]) and other is not None:
                other.append((s, out[0][0]))
            continue
        x, x0, ok = mods.zero(m), np.zeros(ref.n), True
        for r in s["pre"]:
            with quiet():
                x, (l, k), f = m.t_func(x, mods.shockvec(m, r), return_k=True, linear=c["linear"])
            if big(ref, l if k else 0, k):
                ok = False
                break
            e = np.zeros(ref.m)
            for z, v in r.items():
                e[ref.sx[z]] = v
            x0 = ref.step(x0, e, l if k else 0, k)
        if not ok or np.max(np.abs(x0)) > 1e3:
            continue
        out.append((s, ref, x, x0, list(m.vv)))
    if out:
        with must_work("set_par"):
            m.set_par(vec(spec, out[0][0]["par"]))
    return out


def mixed(m, spec, other, how, rec):
    """Samples with different orderings of variables can not be averaged."""
    for a, b in other[:1]:
        n = len(m.vv)
        pars = np.array([vec(spec, b["par"]), vec(spec, a["par"])])
        resid = np.ones((2, 2, len(m.shocks)))
        ed = {"pars": pars, "resid": resid, "init": np.zeros((2, n)), "means": np.zeros((2, 3, n))}
        m.data = pd.DataFrame(np.zeros((3, len(spec["obs"]))), columns=list(m.observables))
        rec.label("other ordering")
        try:
            with quiet():
                m.nhd(ed) if how == "nhd" else m.gfevd(ed, verbose=False)
        except Exception:  # noqa
            continue
        raise Violation("%s mixes samples whose variables are ordered differently" % how)




def run(c, rec):
    from pydsge.stats import sort_nhd

    spec = c["spec"]
    m = mods.read(spec)
    names = spec["vars"]
    other = []
    jobs = prepare(c, m, other)
    if not jobs:
        return False
    mixed(copy.deepcopy(m), spec, other, "nhd", rec)
    order = jobs[0][4]
    T = len(jobs[0][0]["rows"])
    pars = np.array([vec(spec, j[0]["par"]) for j in jobs])
    resid = np.array([[mods.shockvec(m, r) for r in j[0]["rows"]] for j in jobs])
    init = np.array([j[2] for j in jobs])
    index = pd.period_range("1990Q1", periods=T + 1, freq="Q")
    m.data = pd.DataFrame(np.zeros((T + 1, len(spec["obs"]))), index=index, columns=list(m.observables))
    single = copy.deepcopy(m)
    with must_work("simulate"):
        X, LK, fl = m.simulate(pars=pars, resid=resid, init=init, linear=c["linear"])
    X = np.asarray(X).reshape(len(jobs), T + 1, -1)
    L = np.asarray(LK[0]).reshape(len(jobs), T)
    K = np.asarray(LK[1]).reshape(len(jobs), T)
    bad = np.atleast_1d(np.asarray(fl)).astype(bool)
    src = {"pars": pars, "resid": resid, "init": init}
    keep = copy.deepcopy(src)
    with must_work("nhd"):
        hd, means = m.nhd(src, linear=c["linear"])
    for k_ in src:
        expect(np.array_equal(src[k_], keep[k_]), "nhd changed its input `%s`" % k_)
    hit = 0
    nsh = len(m.shocks)
    expect(len(hd) == nsh, "nhd: %d contributions for %d shocks" % (len(hd), nsh))
    for h in list(hd) + [means]:
        expect(list(h.columns) == order and list(h.index) == list(index), "nhd: labels")
    if np.max(np.abs(X)) > 1e5:
        return False
    expect_close(means.to_numpy(), X.mean(axis=0), "nhd: means are not the simulated states", rtol=1e-9)
    singles = []
    fine = True
    for i, (s, ref, x, x0, _) in enumerate(jobs):
        with must_work("nhd"):
            h1, _ = single.nhd({"pars": pars[i : i + 1], "resid": resid[i : i + 1], "init": init[i : i + 1]}, linear=c["linear"])
        H = np.array([h.to_numpy() for h in h1])
        singles.append(H)
        ix = [order.index(z) for z in names]
        jx = [ref.ix[z] for z in names]
        C = np.repeat(x0[None] / nsh, nsh, axis=0)
        if bad[i]:
            # a period without equilibrium: the approximation need not be attributable
            rec.label("flagged")
            fine = False
            continue
        for t in range(T):
            l, k = int(L[i, t]), int(K[i, t])
            lr = l if k else 0
            if big(ref, lr, k):
                fine = False
                break
            P, Q, const = ref.rule(lr, k)
            base = np.empty_like(C)
            for j, z in enumerate(m.shocks):
                e = np.zeros(ref.m)
                e[ref.sx[z]] = resid[i, t, j]
                base[j] = P @ C[j] + Q @ e
            got = H[:, t + 1][:, ix]
            if k:
                cn = const[jx]
                if np.max(np.abs(cn)) < 1e-6:
                    fine = False
                    break
                w = ((got - base[:, jx]) @ cn) / (cn @ cn)
                if np.max(np.abs(w)) > 1e4 or not np.all(np.isfinite(w)):
                    rec.label("cancelling weights")
                    fine = False
                    break
                sc = 1 + np.max(np.abs(got)) + np.max(np.abs(w))
                if abs(w.sum() - 1) > 1e-5 * sc:
                    raise Violation("sample %d, period %d: contributions to the constant add up to %r of it" % (i, t, w.sum()))
                base = base + w[:, None] * const
                rec.label("binding")
            sc = 1 + np.max(np.abs(base)) + np.max(np.abs(C))
            expect_close(got, base[:, jx], "sample %d, period %d: contributions of the shocks" % (i, t), rtol=1e-6, scale=sc)
            expect_close(got.sum(axis=0), X[i, t + 1, ix], "sample %d, period %d: contributions do not add up" % (i, t), rtol=1e-6, scale=sc)
            if c["off"] and not s["pre"]:
                j = list(m.shocks).index(c["off"])
                expect_close(got[j], 0 * got[j], "sample %d, period %d: contribution of a shock that does not occur" % (i, t), rtol=1e-9, scale=sc)
            C = base
            hit += 1
    if fine and len(jobs) > 1:
        expect_close(np.array([h.to_numpy() for h in hd]), np.mean(singles, axis=0), "nhd: not the average over samples", rtol=1e-8)
        rec.label("several samples")
    # stacked bands
    HH = [h if c["frame"] else h.to_numpy() for h in hd]
    with must_work("sort_nhd"):
        lo, hi = sort_nhd(HH)
    top = np.zeros((T + 1, len(order)))
    bot = np.zeros((T + 1, len(order)))
    expect(len(lo) == nsh and len(hi) == nsh, "sort_nhd: %d bands" % len(lo))
    for j in range(nsh):
        v = hd[j].to_numpy()
        expect(np.shape(hi[j]) == (2,) + v.shape, "sort_nhd: shape %s" % (np.shape(hi[j]),))
        expect_close(hi[j][0], top, "sort_nhd: lower edge", rtol=1e-10)
        top = top + np.maximum(v, 0)
        expect_close(hi[j][1], top, "sort_nhd: upper edge", rtol=1e-10)
        expect_close(lo[j][0], bot, "sort_nhd: upper edge (negative)", rtol=1e-10)
        bot = bot + np.minimum(v, 0)
        expect_close(lo[j][1], bot, "sort_nhd: lower edge (negative)", rtol=1e-10)
    return "decomposition" if hit else False


def run_vd(c, rec):
    spec = c["spec"]
    m = mods.read(spec)
    names = spec["vars"]
    other = []
    jobs = prepare(c, m, other)
    if not jobs:
        return False
    mixed(copy.deepcopy(m), spec, other, "gfevd", rec)
    order = jobs[0][4]
    pars = np.array([vec(spec, j[0]["par"]) for j in jobs])
    resid = np.array([[mods.shockvec(m, r) for r in j[0]["rows"]] for j in jobs])
    init = np.array([j[2] for j in jobs])
    T = resid.shape[1]
    with must_work("simulate"):
        X, LK, fl = m.simulate(pars=pars, resid=resid, init=init, linear=c["linear"])
    X = np.asarray(X).reshape(len(jobs), T + 1, -1)
    if np.max(np.abs(X)) > 1e4:
        return False
    ed = {"pars": pars, "resid": resid, "init": init, "means": X}
    keep = copy.deepcopy(ed)
    single = copy.deepcopy(m)
    with must_work("gfevd"):
        vd = m.gfevd(ed, horizon=c["h"], linear=c["linear"], verbose=False)
    for k_ in ed:
        expect(np.array_equal(ed[k_], keep[k_]), "gfevd changed its input `%s`" % k_)
    expect(list(vd.index) == list(m.shocks) and list(vd.columns) == order, "gfevd: labels")
    G = np.zeros((len(m.shocks), len(order)))
    scale = np.zeros(len(order))
    tot = np.zeros(len(order))
    for i in range(len(jobs)):
        with quiet():
            single.set_par(list(pars[i]))
        for t in range(T):
            for j, z in enumerate(m.shocks):
                out = []
                for size in (resid[i, t, j], 0.0):
                    x = X[i, t]
                    for u in range(c["h"]):
                        e = np.zeros(len(m.shocks))
                        e[j] = size * (u == 0)
                        x = single.t_func(x, e, linear=c["linear"])[0]
                    out.append(x)
                G[j] += (out[0] - out[1]) ** 2
                scale = np.maximum(scale, np.max(np.abs(out[0])) ** 2)
    tot = G.sum(axis=0)
    ok = tot > 1e-9 * (1 + scale)
    if not ok.any():
        return False
    V = vd.to_numpy()
    expect(np.all(V[:, ok] >= -1e-12), "gfevd: negative share")
    expect_close(V[:, ok].sum(axis=0), np.ones(ok.sum()), "gfevd: shares do not add up to one", rtol=1e-9)
    expect_close(V[:, ok], G[:, ok] / tot[ok], "gfevd: shares", rtol=1e-4, scale=1)
    if c["linear"]:
        # against the solved model
        R = np.zeros((len(m.shocks), len(names)))
        for i, (s, ref, *_) in enumerate(jobs):
            P, Q = ref.linear()
            M = np.linalg.matrix_power(P, c["h"] - 1) @ Q
            jx = [ref.ix[z] for z in names]
            for t in range(T):
                for j, z in enumerate(m.shocks):
                    R[j] += (M[jx, ref.sx[z]] * resid[i, t, j]) ** 2
        ix = [order.index(z) for z in names]
        good = (R.sum(axis=0) > 1e-7 * (1 + scale[ix])) & ok[ix]
        if good.any():
            expect_close(V[:, ix][:, good], (R / np.where(R.sum(axis=0) > 0, R.sum(axis=0), 1))[:, good], "gfevd: shares of the linear model", rtol=1e-4, scale=1)
            rec.label("linear")
    if len(jobs) > 1:
        rec.label("several samples")
    return "shares"


@st.composite
def vd_case(draw):
    c = draw(case())
    for s in c["samples"]:
        s["rows"] = s["rows"][:4]
    return c


PARTS = [
    Part(
        "history",
        case,
        run,
        "random models with two or three shocks, 1-3 samples of 1-10 periods, initial states reached through the constraint, linear or not; non-trivial: a period whose decomposition was re-derived",
        quick=200,
        cap=40,
    ),
    Part(
        "variance",
        vd_case,
        run_vd,
        "the same kind of samples (up to four periods), horizons of 1-5 periods; non-trivial: a variable that moves",
        quick=80,
        cap=30,
    ),
]
