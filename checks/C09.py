"""Measurement: observables are the observation equations of the state."""
import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, warm  # noqa

ASSUMPTIONS = ["intervals are checked for symmetric positive semi-definite covariances, as a filter delivers them"]


@st.composite
def case(draw):
    spec = draw(cases.model(("gen", "gen", "nk")))
    sets = []
    for _ in range(draw(st.integers(1, 4))):
        sets.append(
            {
                "par": draw(cases.params(spec)),
                "rows": draw(cases.shock_rows(spec, 2, 5, top=600)),
                "cov": draw(st.lists(st.integers(-20, 20), min_size=1, max_size=12)),
            }
        )
    return {"spec": spec, "sets": sets, "back": draw(st.integers(0, 3))}


def psd(seed, n):
    """A covariance matrix of rank up to two, from a list of integers."""
    a = np.array([seed[i % len(seed)] + 0.3 * (i % 3) for i in range(2 * n)], float).reshape(2, n) / 10.0
    return a.T @ a


def run(case, rec):
    spec = case["spec"]
    m = mods.read(spec)
    names = spec["vars"]
    states, pars, want, covs = [], [], [], []
    neg = False
    order = None
    for s in case["sets"]:
        ref = Ref(spec, s["par"])
        if not usable(ref):
            continue
        with must_work("set_par"):
            mods.setp(m, s["par"])
        vv = list(m.vv)
        ix = [vv.index(v) for v in names]
        H = ref.H[:, : len(names)]
        expect(list(m.observables) == [o[0] for o in spec["obs"]], "names of the observables")
        X = []
        x = mods.zero(m)
        with must_work("t_func"):
            for r in s["rows"]:
                e = mods.shockvec(m, r)
                q_obs, f1 = m.t_func(x, e, get_obs=True)
                x2, f2 = m.t_func(x, e)
                expect(f1 == f2, "flag differs with get_obs")
                q, o = q_obs
                expect_close(q, x2[m.dimp:], "states returned with get_obs", atol=1e-10)
                expect_close(
                    o, H @ x2[ix] + ref.h, "observables of the transition function",
                    scale=1 + np.max(np.abs(x2)),
                )
                x = x2
                X.append(x)
        X = np.array(X)
        sc = 1 + np.max(np.abs(X))
        if not np.isfinite(sc) or sc > 1e6:
            continue
        Y = X[:, ix] @ H.T + ref.h
        with must_work("obs"):
            expect_close(np.asarray(m.obs(X)), Y, "obs of a path", scale=sc)
            expect_close(np.asarray(m.obs(np.stack((X, 2 * X)))[1]), 2 * X[:, ix] @ H.T + ref.h,
                         "obs of several paths", scale=2 * sc)
            one = m.obs(X[-1])
            expect_close(np.asarray(one).reshape(-1), Y[-1], "obs of a single state", scale=sc)
            if hasattr(one, "columns"):
                expect(list(one.columns) == list(m.observables), "obs: labels of a single state")
        # 95% intervals
        n = len(vv)
        C = np.array([psd(s["cov"][t:] + s["cov"][:t + 1], n) for t in range(len(X))])
        with must_work("obs with covariances"):
            ivo, ivs = m.obs(X, covs=C)
        sd = np.sqrt(np.array([np.diag(c) for c in C]))
        Hf = np.zeros((len(H), n))
        for j, i in enumerate(ix):
            Hf[:, i] = H[:, j]
        sdo = np.sqrt(np.maximum([np.diag(Hf @ c @ Hf.T) for c in C], 0))
        cs = sc + np.max(sd) * (1 + np.max(np.abs(Hf)) * n)
        for j, z in enumerate((-1.96, 0, 1.96)):
            expect_close(np.asarray(ivs)[j], X + z * sd, "interval of the states (%s sd)" % z, scale=cs)
            expect_close(np.asarray(ivo)[j], Y + z * sdo, "interval of the observables (%s sd)" % z, rtol=1e-6, atol=1e-6, scale=cs)
        neg |= bool(np.any(H < 0)) or bool(np.any((H != 0).sum(1) > 1))
        if order is None:
            order = vv
        if vv == order and len(X) == len(case["sets"][0]["rows"]):
            states.append(X)
            pars.append([float(v) for v in m.par])
            want.append(Y)
    if not states:
        return False
    # several parametrisations at once
    i = case["back"] % len(pars)
    with must_work("set_par"):
        m.set_par(pars[i])
    with must_work("obs with several parametrisations"):
        YY = m.obs(np.array(states), pars=np.array(pars))
    sc = 1 + max(np.max(np.abs(y)) for y in want)
    expect_close(np.asarray(YY), np.array(want), "obs with several parametrisations", scale=sc)
    # ... which leaves the model as it was
    with must_work("obs"):
        expect_close(np.asarray(m.obs(states[i])), want[i], "obs after obs with several parametrisations", scale=sc)
    expect_close(m.get_par(), pars[i], "parameters after obs with several parametrisations")
    # indices by name
    expect([m.vv[j] for j in m.vix(names)] == names, "vix")
    expect([m.observables[j] for j in m.oix([o[0] for o in spec["obs"]][::-1])] == [o[0] for o in spec["obs"]][::-1], "oix")
    if len(pars) > 1:
        rec.label("several parametrisations")
    if neg:
        rec.label("negative or several loadings")
    return "observed"


PARTS = [
    Part(
        "measurement",
        case,
        run,
        "random observation equations (constants, parameters, one or two loadings of either sign), states from random shock paths through the constraint, covariances, several parametrisations at once; non-trivial: at least one usable path",
        quick=900,
    ),
]
