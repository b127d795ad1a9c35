"""Filtered and smoothed states and shocks are conditional expectations given the data."""
import copy

import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.gauss import Joint
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable
from checks.C12 import warm  # noqa
from checks.C12 import lin_model, data_of, noise, cov_of, sigs, frame

ASSUMPTIONS = [
    "as many observables as shocks, at least two (others are refused by the code)",
    "covariances of the stacked data with a condition number below 1e7",
    "the smoother inverts the covariance of one-step forecasts: samples where it has relative singular values between 1e-15 and 1e-8 are not judged (rounding errors are amplified without bound there, see DESIGN.md)",
    "smoothed shocks are judged if the shocks can be told apart from the states",
]


@st.composite
def case(draw):
    spec = draw(lin_model())
    q = len(spec["obs"])
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        samples = []
        for _ in range(draw(st.integers(1, 3))):
            par = draw(cases.params(spec))
            if draw(st.booleans()):
                par.update(sigs(draw, spec))
            samples.append(par)
        nz = draw(noise(q))
        rounds.append(
            {
                "samples": samples,
                "R": nz if nz[0] != "scale" else ["none"],
                "one": draw(st.booleans()),
                "data": draw(data_of(q)),
                "nsamples": draw(st.sampled_from([1, 1, 3])),
            }
        )
    return {"spec": spec, "rounds": rounds, "perm": draw(st.permutations(range(q)))}


def shocks_of(J, ref, Y):
    """E[e_t | all y], t = 0..T-1."""
    d = (np.asarray(Y) - J.h).reshape(-1)
    w = np.linalg.solve(J.Sy, d)
    out = np.zeros((J.T, ref.m))
    for t in range(J.T):
        M = np.diag(J.s**2) @ J.Q.T
        K = np.zeros((ref.m, J.T, J.q))
        for u in range(t, J.T):
            K[:, u, :] = M @ J.H.T
            M = M @ J.P.T
        out[t] = K.reshape(ref.m, -1) @ w
    return out


def run(case, rec):
    spec = case["spec"]
    m = mods.read(spec)
    names = [o[0] for o in spec["obs"]]
    q = len(names)
    vs = spec["vars"]
    hit = 0
    for r in case["rounds"]:
        Y = np.array(r["data"])
        T = len(Y)
        jobs = []
        order = None
        for par in r["samples"]:
            ref = Ref(spec, par)
            if not usable(ref):
                continue
            try:
                with quiet():
                    mods.setp(m, par)
            except ValueError:
                continue
            if order is None:
                order = list(m.vv)
            if list(m.vv) != order:
                continue
            jobs.append((par, ref, [float(x) for x in m.par]))
        if not jobs:
            continue
        obs = list(m.observables)
        Yo = Y[:, [names.index(o) for o in obs]]
        with must_work("create_filter"):
            m.load_data(frame(spec, r["data"], case["perm"]))
            R = cov_of(r["R"], q)
            m.create_filter(R=R, ftype="KF")
        R = np.eye(q) if R is None else R
        good = []
        for par, ref, v in jobs:
            try:
                J = Joint(ref, obs, R, T)
                if J.cond() > 1e7:
                    continue
                w = J.predicted_spectrum()
                if np.any((w > 1e-15) & (w < 1e-8)):
                    rec.label("nearly singular forecasts")
                    continue
                wmin = np.min(w[w >= 1e-8])
                sm, cov = J.smooth(Yo)
                fm = J.filtered(Yo)
                eps = shocks_of(J, ref, Yo)
            except (np.linalg.LinAlgError, ArithmeticError):
                continue
            J.loss = 1e-12 / wmin
            good.append((par, ref, v, J, sm, cov, fm, eps))
        for par, ref, v, J, sm, cov, fm, eps in good:
            with must_work("filtering"):
                m.set_par(v)
                f, fc = m.run_filter(smoother=False)
                s, sc = m.run_filter(smoother=True)
            scale = 1 + np.max(np.abs(sm)) + np.max(np.abs(Y))
            expect(f.shape == (T, len(order)), "filtered means: shape %s" % (f.shape,))
            ix = [order.index(z) for z in vs]
            jx = [ref.ix[z] for z in vs]
            expect_close(f[:, ix], fm[:, jx], "filtered states", rtol=1e-6, scale=scale)
            expect_close(s[:, ix], sm[:, jx], "smoothed states", rtol=1e-6 + J.loss, scale=scale)
            cs = 1 + np.max(np.abs(J.C[0, 0]))
            expect_close(sc[:, ix][:, :, ix], cov[:, jx][:, :, jx], "covariances of the smoothed states", rtol=1e-5 + J.loss, scale=cs)
            o = m.obs(s)
            Hs = sm @ J.H.T + J.h
            expect_close(o, Hs, "smoothed observables", rtol=1e-5 + J.loss, scale=scale)
        if not good:
            continue
        # extraction, all samples at once
        arg = [g[2] for g in good]
        if r["one"]:
            good = good[-1:]
            arg = good[0][2]
        with must_work("set_par"):
            m.set_par(good[-1][2])
        kw = {}
        if r["nsamples"] > 1:
            kw["nsamples"] = r["nsamples"]
        with must_work("extract"):
            if r["one"]:
                ed = m.extract(verbose=False, **kw)
            else:
                ed = m.extract(np.array(arg), verbose=False, **kw)
        n = len(good)
        expect(len(ed["pars"]) == n and len(ed["resid"]) == n and len(ed["init"]) == n, "extract: %d samples in, %s out" % (n, np.shape(ed["resid"])))
        with must_work("simulate"):
            X, LK, fl = m.simulate(ed, linear=True)
        X = np.asarray(X)
        X = X.reshape(-1, *X.shape[-2:])
        for i, (par, ref, v, J, sm, cov, fm, eps) in enumerate(good):
            expect_close(ed["pars"][i], v, "extract: parameters of sample %d" % i, rtol=1e-12)
            ix = [order.index(z) for z in vs]
            jx = [ref.ix[z] for z in vs]
            scale = 1 + np.max(np.abs(sm)) + np.max(np.abs(Y))
            res = np.asarray(ed["resid"][i], float)
            expect(res.shape == (T - 1, ref.m), "extract: shape of the shocks %s" % (res.shape,))
            expect_close(np.asarray(ed["init"][i])[ix], sm[0, jx], "extract: initial state", rtol=1e-6 + J.loss, scale=scale)
            # the extracted shocks drive the model along the smoothed path
            expect_close(X[i][:, ix], sm[:, jx], "simulating the extracted shocks does not give the smoothed states", rtol=1e-5 + 3 * J.loss, scale=scale)
            sv = np.linalg.svd(J.Q, compute_uv=False)
            if len(sv) == ref.m and sv[-1] > 1e-3 * sv[0]:
                ex = [ref.sx[z] for z in m.shocks]
                expect_close(res, eps[1:, ex], "extracted shocks", rtol=1e-5 + 10 * J.loss, scale=scale / sv[-1])
                rec.label("shocks")
            hit += 1
        rec.label("samples=%d" % n)
    return "smoothing" if hit else False


PARTS = [
    Part(
        "smoothing",
        case,
        run,
        "random models with two or three observables and shocks, 2-10 periods of arbitrary data, 1-3 rounds of data, noise and up to three parameter vectors; non-trivial: a sample whose stacked covariance is well-conditioned",
        quick=480,
        cap=70,
    ),
]
