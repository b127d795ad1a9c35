"""Simulations: every period is the transition from the one before with the given innovation."""
import copy

import hypothesis.strategies as st
import numpy as np
import pandas as pd

from vlib import mods, cases
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, warm, big, TOL  # noqa

ASSUMPTIONS = [
    "all samples of one call have innovations of the same length, as extracted ones do",
    "periods that are within 1e-6 of a tie between regimes are not judged",
]

OPS = {"mul": np.multiply, "add": np.add, "set": lambda m, e: m}


@st.composite
def case(draw):
    spec = draw(cases.model(("gen", "gen", "nk")))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        T = draw(st.integers(1, 10))
        n = draw(st.integers(1, 4))
        samples = []
        for _ in range(n):
            samples.append(
                {
                    "par": draw(cases.params(spec, edge=draw(st.integers(0, 4)) == 0)),
                    "pre": draw(st.one_of(st.just([]), cases.shock_rows(spec, 1, 3, top=600))),
                    "rows": draw(cases.shock_rows(spec, T, T, top=draw(st.sampled_from([200, 600])))),
                }
            )
        mask = None
        if draw(st.integers(0, 2)) == 0:
            mask = [
                [draw(st.sampled_from([None, None, 0, 1, 0.5, -1, 2])) for _ in spec["shocks"]]
                for _ in range(T)
            ]
        calls.append(
            {
                "samples": samples,
                "mask": mask,
                "op": draw(st.sampled_from(["default", "default", "mul", "add", "set"])),
                "how": draw(st.sampled_from(["source", "source", "parts", "mixed"])),
                "frame": draw(st.booleans()),
                "linear": draw(st.integers(0, 3)) == 0,
                "lk": draw(st.sampled_from([None, None, [3, 10], [2, 6], [4, 20], [1, 17], [1, 9], [2, 3]])),
                "own": draw(cases.params(spec)),
            }
        )
    return {"spec": spec, "calls": calls}


def vec(spec, par):
    return [float(par.get(n, v)) for n, v in spec["params"]]


def run(case, rec):
    spec = case["spec"]
    names = spec["vars"]
    m = mods.read(spec)
    single = mods.read(spec)
    hit = 0
    for c in case["calls"]:
        use, refs, inits, x0s = [], [], [], []
        try:
            with quiet():
                m.set_par(vec(spec, c["own"]))
        except ValueError:
            continue
        order = list(m.vv)
        for s in c["samples"]:
            ref = Ref(spec, s["par"])
            if not usable(ref):
                continue
            try:
                with quiet():
                    single.set_par(vec(spec, s["par"]))
            except ValueError:
                continue
            if list(single.vv) != order:
                # must not be labelled with the ordering of the model
                rec.label("other ordering")
                if len(single.vv) == len(order):
                    try:
                        with quiet():
                            m.simulate(
                                pars=np.array([vec(spec, s["par"])]),
                                resid=np.zeros((1, 2, len(spec["shocks"]))),
                                init=np.zeros((1, len(order))),
                            )
                    except Exception:  # noqa
                        continue
                    raise Violation("simulate gives states in the ordering %s for a model with ordering %s" % (list(single.vv), order))
                continue
            x, x0, ok = mods.zero(single), np.zeros(ref.n), True
            for row in s["pre"]:
                e = np.array([row.get(z, 0.0) for z in ref.shocks])
                with must_work("t_func"):
                    x, (l, k), f = single.t_func(x, mods.shockvec(single, row), return_k=True)
                if big(ref, l if k else 0, k):
                    ok = False
                    break
                x0 = ref.step(x0, e, l if k else 0, k)
            if not ok or np.max(np.abs(x0)) > 1e4:
                continue
            use.append(s)
            refs.append(ref)
            inits.append(x)
            x0s.append(x0)
        if not use:
            continue
        n = len(use)
        T = len(use[0]["rows"])
        pars = np.array([vec(spec, s["par"]) for s in use])
        resid = np.array([[mods.shockvec(m, r) for r in s["rows"]] for s in use])
        init = np.array(inits)
        kw = {}
        mask = None
        eff = resid.copy()
        if c["mask"] is not None:
            # given by shock name: the columns follow the model's order
            mk = np.array([[np.nan if v is None else float(v) for v in row] for row in c["mask"]])
            cols = [spec["shocks"].index(z) for z in m.shocks]
            mk = mk[:, cols]
            op = OPS["mul" if c["op"] == "default" else c["op"]]
            if c["op"] != "default":
                kw["operation"] = op
            for i in range(n):
                for t in range(T):
                    for j in range(mk.shape[1]):
                        if not np.isnan(mk[t, j]):
                            eff[i, t, j] = op(mk[t, j], resid[i, t, j])
            mask = pd.DataFrame(mk, columns=list(m.shocks)) if c["frame"] else mk
        if c["linear"]:
            kw["linear"] = True
        if c["lk"]:
            kw["l_max"], kw["k_max"] = c["lk"]
        src = {"pars": pars, "resid": resid, "init": init}
        keep = copy.deepcopy(src)
        keep_mask = None if mask is None else mask.copy()
        own, lks = list(m.par), list(m.lks)
        with must_work("simulate"):
            if c["how"] == "source":
                X, LK, flags = m.simulate(src, mask=mask, **kw)
            elif c["how"] == "parts":
                X, LK, flags = m.simulate(pars=pars, resid=resid, init=init, mask=mask, **kw)
            else:
                # what is given explicitly takes precedence
                bad = dict(src, resid=resid * 0 + 7.0, init=init + 3)
                X, LK, flags = m.simulate(bad, resid=resid, init=init, mask=mask, **kw)
        for k_ in src:
            expect(np.array_equal(src[k_], keep[k_]), "simulate changed its input `%s`" % k_)
        if mask is not None:
            expect(np.array_equal(np.asarray(mask), np.asarray(keep_mask), equal_nan=True), "simulate changed the mask")
        expect(list(m.par) == own and list(m.lks) == lks and list(m.vv) == order, "simulate changed the model")
        X = np.asarray(X)
        L, K = np.asarray(LK[0]), np.asarray(LK[1])
        flags = np.atleast_1d(np.asarray(flags))
        if n == 1:
            # a single sample may come without the sample dimension
            X, L, K = X.reshape(-1, *X.shape[-2:]), L.reshape(1, -1), K.reshape(1, -1)
        expect(X.shape == (n, T + 1, len(order)), "simulate: shape %s for %d samples of %d periods" % (X.shape, n, T))
        expect(L.shape == (n, T) and K.shape == (n, T), "simulate: shape of the durations %s" % (L.shape,))
        ix = [order.index(v) for v in names]
        for i in range(n):
            ref = refs[i]
            expect(np.array_equal(X[i, 0], init[i]), "simulate: sample %d does not start from its initial state" % i)
            # one at a time, on a model of its own
            with quiet():
                single.set_par(list(pars[i]), **{k_: kw[k_] for k_ in ("l_max", "k_max") if k_ in kw} or {"l_max": 2, "k_max": 17})
            x = init[i]
            fl = False
            for t in range(T):
                with must_work("t_func"):
                    x, (l, k), f = single.t_func(x, eff[i, t], return_k=True, linear=c["linear"])
                fl |= bool(f)
                if f:
                    rec.label("flag %d" % f)
                expect((l, k) == (L[i, t], K[i, t]), "sample %d, period %d: durations (%s, %s), one by one %s" % (i, t, L[i, t], K[i, t], (l, k)))
                if np.max(np.abs(x)) < 1e6:
                    expect_close(X[i, t + 1], x, "sample %d, period %d: simulation and transition differ" % (i, t), rtol=1e-9)
            expect(bool(flags[i]) == fl, "sample %d: flag %s, periods one by one %s" % (i, flags[i], fl))
            x = x0s[i]
            anyk = False
            for t in range(T):
                e = np.zeros(ref.m)
                for j, z in enumerate(m.shocks):
                    e[ref.sx[z]] = eff[i, t, j]
                l, k = int(L[i, t]), int(K[i, t])
                lr = l if k else 0
                if c["linear"]:
                    expect((l, k) == (0, 0), "linear simulation reports durations %s" % ((l, k),))
                elif not flags[i]:
                    if big(ref, lr, k):
                        break
                    p, every, scale, XX, S = ref.checks(x, e, lr, k, 3)
                    if np.any(p < -TOL * scale):
                        raise Violation("sample %d, period %d: (l, k) = %s is no equilibrium (%s)" % (i, t, (l, k), p.tolist()))
                if big(ref, lr, k):
                    break
                x = ref.step(x, e, lr, k)
                sc = 1 + np.max(np.abs(x)) + np.max(np.abs(x0s[i]))
                if sc > 1e5:
                    break
                expect_close(X[i, t + 1, ix], ref.byname(x, names), "sample %d, period %d" % (i, t), rtol=1e-6, scale=sc)
                anyk |= k > 0
            if anyk:
                rec.label("binding")
            if np.any(eff[i]):
                hit += 1
        rec.label(c["how"])
        if c["linear"]:
            rec.label("linear")
        if mask is not None:
            rec.label("mask " + c["op"])
        if n > 1:
            rec.label("several samples")
    return "simulation" if hit else False


PARTS = [
    Part(
        "simulations",
        case,
        run,
        "random models, 1-3 calls of 1-4 samples each (own parameters, initial states reached through the constraint, 1-10 periods of innovations), optionally masked with several operations, linear or not, with own search limits; non-trivial: a sample with a non-zero innovation",
        quick=320,
        cap=75,
    ),
]
