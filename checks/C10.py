"""Impulse responses are iterations of the transition function."""
import copy

import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, warm, big, TOL  # noqa

ASSUMPTIONS = [
    "a shock is listed at most once per period",
    "periods that are within 1e-6 of a tie between regimes are not judged",
]


@st.composite
def case(draw):
    spec = draw(cases.model(("gen", "gen", "nk")))
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        T = draw(st.integers(1, 12))
        shocks = []
        seen = set()
        for _ in range(draw(st.integers(0, 4))):
            s = draw(st.sampled_from(spec["shocks"]))
            t = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 20]))
            if (s, t) in seen:
                continue
            seen.add((s, t))
            shocks.append([s, draw(cases.size(draw(st.sampled_from([200, 600, 1200])))), t])
        if not shocks:
            shocks = [[spec["shocks"][0], draw(st.sampled_from([0, -2])), 0]]
        runs.append(
            {
                "par": draw(cases.params(spec, edge=True)),
                "pre": draw(st.one_of(st.none(), cases.shock_rows(spec, 1, 3, top=600))),
                "shocks": shocks,
                "T": T,
                "mode": draw(st.sampled_from(["default", "default", "free", "linear", "set_k", "set_lk"])),
                "lk": [draw(st.integers(0, 2)), draw(st.integers(1, 5))],
                "form": draw(st.sampled_from(["list", "list", "tuple", "short", "name", "lists"])),
                "how": draw(st.sampled_from(["set", "vector", "batch"])),
            }
        )
    return {"spec": spec, "runs": runs, "fresh": draw(st.booleans())}


def tie(ref, x, e, l, k, T=4):
    """Is the choice of (l, k) too close to call from here?"""
    try:
        p, every, scale, X, S = ref.checks(x, e, l, k, T)
    except np.linalg.LinAlgError:
        return True
    return bool(np.any(np.abs(p) < TOL * scale))


def args_of(r):
    form = r["form"]
    sh = [tuple(s) for s in r["shocks"]]
    if form == "tuple" and len(sh) == 1:
        return sh[0]
    if form == "lists":
        return [list(s) for s in sh]
    if form == "short" and all(s[2] == 0 for s in sh):
        return [s[:2] for s in sh]
    if form == "name" and len(sh) == 1 and sh[0][1] == 1 and sh[0][2] == 0:
        return sh[0][0]
    return sh


def run(case, rec):
    spec = case["spec"]
    names = spec["vars"]
    m = mods.read(spec)
    base = {}
    hit = 0
    for r in case["runs"]:
        if r["form"] == "name":
            r = dict(r, shocks=[[r["shocks"][0][0], 1, 0]])
        ref = Ref(spec, r["par"])
        if not usable(ref):
            continue
        T = r["T"]
        mode = r["mode"]
        vec = [float(r["par"].get(n, v)) for n, v in spec["params"]]
        # the parameters the model has before the call
        try:
            with quiet():
                m.set_par(vec if r["how"] == "set" else [float(v) for _, v in spec["params"]])
        except ValueError:
            continue
        own = list(m.par)
        lks = list(m.lks)
        # an initial state, reached by shocks
        st0 = None
        x0 = np.zeros(ref.n)
        mm = m
        if r["pre"] and r["how"] == "set":
            x = mods.zero(m)
            ok = True
            for row in r["pre"]:
                e = np.array([row.get(s, 0.0) for s in ref.shocks])
                with must_work("t_func"):
                    x, (l, k), f = m.t_func(x, mods.shockvec(m, row), return_k=True)
                if big(ref, l, k):
                    ok = False
                    break
                x0 = ref.step(x0, e, l if k else 0, k)
            if not ok or np.max(np.abs(x0)) > 1e4:
                continue
            st0 = x
        kw = {}
        if mode == "linear":
            kw["linear"] = True
        elif mode == "free":
            kw["force_init_equil"] = False
        elif mode == "set_k":
            kw["set_k"] = r["lk"][1]
        elif mode == "set_lk":
            kw["set_k"] = tuple(r["lk"])
        lst = args_of(r)
        keep = copy.deepcopy(lst)
        keep_st = None if st0 is None else st0.copy()
        pars = None
        if r["how"] == "vector":
            pars = np.array(vec)
        elif r["how"] == "batch":
            pars = np.array([vec, vec])
        try:
            with quiet():
                X, LK, flag = m.irfs(lst, pars=pars, state=st0, T=T, verbose=False, **kw)
        except Exception as e:  # noqa
            if r["how"] != "set":
                m2 = copy.deepcopy(m)
                with must_work("set_par"):
                    m2.set_par(vec)
                if list(m2.vv) != list(m.vv):
                    # terms vanished: other states than the model at hand has
                    rec.label("other ordering")
                    continue
            raise Violation("irfs raised %s: %s" % (type(e).__name__, e))
        if mode != "linear" or True:
            expect(lst == keep or r["form"] == "lists", "irfs changed the shocks it was given")
        if st0 is not None:
            expect(np.array_equal(st0, keep_st), "irfs changed the state it was given")
        expect(list(m.par) == own and list(m.lks) == lks, "irfs changed the model")
        if r["how"] == "batch":
            X = np.asarray(X)
            expect(X.shape == (2, T, len(m.vv)), "shape of a batch: %s" % (X.shape,))
            expect(np.array_equal(X[0], X[1]), "equal parametrisations gave different responses")
            LK = np.asarray(LK)
            expect(LK.shape == (4, T), "shape of the durations: %s" % (LK.shape,))
            L, K = LK[0], LK[2]
            X = X[0]
            flag = np.asarray(flag)[0]
            cols = list(m.vv)
        else:
            expect(list(X.columns) == list(m.vv), "irfs: columns")
            cols = list(X.columns)
            X = X.to_numpy()
            L, K = np.asarray(LK)
        expect(X.shape == (T, len(cols)), "irfs: shape %s" % (X.shape,))
        ix = [cols.index(v) for v in names]
        # reference
        x = x0
        any_shock = any(s[1] for s in r["shocks"])
        prev = None
        anyk = False
        stop = False
        for t in range(T):
            e = np.zeros(ref.m)
            for s, v, d in r["shocks"]:
                if d == t:
                    e[ref.sx[s]] = v
            l, k = int(L[t]), int(K[t])
            if mode == "linear":
                expect((l, k) == (0, 0), "linear: period %d has (l, k) = %s" % (t, (l, k)))
            elif mode in ("set_k", "set_lk"):
                l0, k0 = (0, r["lk"][1]) if mode == "set_k" else r["lk"]
                if l0 - t >= 0:
                    w = (l0 - t, k0)
                else:
                    w = (0, max(k0 + l0 - t, 0))
                expect((l, k) == w, "forced %s: period %d has (l, k) = %s" % (kw["set_k"], t, (l, k)))
            else:
                forced = mode == "default" and t > 0 and not e.any() and any_shock
                w = None
                if forced:
                    w = (prev[0] - 1, prev[1]) if prev[0] else (0, max(prev[1] - 1, 0))
                    if not any(d for _, _, d in r["shocks"]) and (l, k) != w:
                        # all shocks are initial ones: solved anew every period
                        rec.label("new spell")
                        forced = False
                if forced:
                    expect((l, k) == w, "period %d without shock: (l, k) = %s after %s" % (t, (l, k), prev))
                elif not flag:
                    # found endogenously: an equilibrium
                    if big(ref, l if k else 0, k):
                        stop = True
                        break
                    if l and not k:
                        raise Violation("period %d: (l, k) = %s" % (t, (l, k)))
                    p, every, scale, XX, S = ref.checks(x, e, l if k else 0, k, 3)
                    if np.any(p < -TOL * scale):
                        raise Violation("period %d: (l, k) = %s is no equilibrium (%s)" % (t, (l, k), p.tolist()))
            prev = (l, k)
            lr = l if k else 0
            if big(ref, lr, k):
                stop = True
                break
            x = ref.step(x, e, lr, k)
            sc = 1 + np.max(np.abs(x)) + np.max(np.abs(x0))
            if sc > 1e5:
                stop = True
                break
            expect_close(X[t, ix], ref.byname(x, names), "irfs (%s): period %d" % (mode, t), rtol=1e-6, scale=sc)
            anyk |= k > 0
            if mode in ("default", "free") and not flag:
                rr = X[t, cols.index(spec["cvar"])]
                if mode == "free" or e.any() or t == 0:
                    expect(rr >= ref.x_bar - TOL * sc, "period %d: below the bound" % t)
        if mode == "linear" and not stop:
            with must_work("irfs"):
                # twice the shocks, twice the response
                if st0 is None:
                    X2, _, _ = m.irfs([(s, 2 * v, d) for s, v, d in r["shocks"]], pars=np.array(vec), T=T, linear=True, verbose=False)
                    expect_close(X2.to_numpy(), 2 * X, "linear responses do not scale", rtol=1e-9, scale=1 + 2 * np.max(np.abs(X)))
        if any_shock or st0 is not None:
            hit += 1
        rec.label(mode)
        rec.label(r["how"])
        if anyk:
            rec.label("binding")
        if st0 is not None and any_shock and min(s[2] for s in r["shocks"] if s[1]) > 0:
            rec.label("late shock from a state")
        if flag:
            rec.label("flagged")
    return "responses" if hit else False


PARTS = [
    Part(
        "responses",
        case,
        run,
        "random models, 1-4 calls each: up to four shocks at dates 0-20 in every accepted notation, from the steady state or a state reached through the constraint, horizons 1-12, free, forced, linear or default equilibrium choice, current, given or batched parameters; non-trivial: a call with a non-zero shock or state",
        quick=800,
        cap=75,
    ),
]
