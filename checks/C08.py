"""Parameters: what was set is what the model uses and reports, whatever came before."""
import copy

import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.modelgen import ev
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, big, warm  # noqa

ASSUMPTIONS = [
    "parameter sets ('calib', 'prior_mean', ...) start from the calibration (documented); asking for one with get_par also makes it the base of later changes, so a get is followed by a full set here",
]


@st.composite
def value(draw, name):
    if name[0] == "a" and name[1:].isdigit():
        return draw(st.one_of(st.integers(1, 99).map(lambda i: i / 100.0), st.sampled_from([0, 1])))
    if name.startswith("sig"):
        return draw(st.one_of(st.integers(1, 30).map(lambda i: i / 10.0), st.integers(1, 3)))
    if name == "x_bar":
        return draw(st.sampled_from([-1, -0.5, -0.25, -2]))
    if name == "xlev":
        return draw(st.sampled_from([1, 0.5, 0.25, 2]))
    return draw(st.one_of(st.integers(-9, 9), st.integers(-90, 90).map(lambda i: i / 10.0)))


@st.composite
def case(draw):
    spec = draw(mg.contraction_spec(max_endo=3, max_shocks=3, want_prior=True))
    # parameters that enter nowhere but count
    npad = draw(st.sampled_from([0, 0, 1, 2, 3, 5]))
    for i in range(npad):
        spec["params"].insert(draw(st.integers(0, len(spec["params"]))), ["pad%d" % i, draw(value("pad"))])
        if draw(st.booleans()):
            spec["prior"]["pad%d" % i] = draw(
                st.sampled_from(
                    [
                        [0.5, -10, 10, "normal", 0.3, 0.1],
                        ["None", -10, 10, "uniform", -1, 3],
                        [0.5, 0.001, 10, "gamma", 2, 0.4],
                    ]
                )
            )
    mode = draw(st.sampled_from(["prior", "prior", "prior", "none", "ints"]))
    if mode == "none":
        spec["prior"] = None
    if mode == "ints":
        # a calibration in whole numbers
        for p in spec["params"]:
            n = p[0]
            p[1] = 1 if n[0] in "as" or n == "xlev" else -1 if n == "x_bar" else 2
    names = [n for n, _ in spec["params"]]
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        o = draw(
            st.sampled_from(
                ["full", "full", "one", "one", "one", "some", "set", "bad", "npar", "npar", "get", "lk", "none", "cov", "map", "map"]
            )
        )
        if o == "full":
            ops.append([o, [draw(value(n)) for n in names], draw(st.sampled_from(["list", "array", "tuple"]))])
        elif o == "one":
            n = draw(st.sampled_from(names))
            ops.append([o, n, draw(value(n))])
        elif o == "some":
            ops.append([o, {n: draw(value(n)) for n in (spec["prior"] or {})}, draw(st.sampled_from(["list", "array"]))])
        elif o == "set":
            ops.append([o, draw(st.sampled_from(["calib", "prior_mean", "adj_prior_mean", "calib"]))])
        elif o == "bad":
            ops.append([o, draw(st.sampled_from(["name", "func", "set", "indet"]))])
        elif o == "npar":
            n = draw(st.sampled_from(names))
            ops.append([o, n, draw(value(n)), draw(st.booleans()), {n: draw(value(n)) for n in names}])
        elif o == "get":
            ops.append([o, draw(st.sampled_from(["calib", "prior_mean", "adj_prior_mean"])), draw(st.booleans())])
        elif o == "lk":
            l, k = draw(st.sampled_from([1, 1, 2, 3, 4])), draw(st.integers(1, 12))
            ops.append([o] + draw(st.sampled_from([[l, k], [l, None], [l, None], [None, k]])))
        elif o == "map":
            ops.append([o, draw(st.sampled_from(spec["shocks"])), draw(st.integers(-90, 90)) / 10.0, draw(st.integers(0, 3)), draw(st.integers(0, 3))])
        else:
            ops.append([o])
    return {"spec": spec, "ops": ops, "rows": draw(cases.shock_rows(spec, 1, 3, top=900))}


def pset(spec, which):
    """A named parameter set, from the model file."""
    out = {n: float(v) for n, v in spec["params"]}
    if which == "calib":
        return out
    for n, p in spec["prior"].items():
        if p[3] == "uniform":
            out[n] = 0.5 * (p[4] + p[5])
        elif p[3] == "inv_gamma_dynare" and which == "adj_prior_mean":
            out[n] = p[4] * 10
        else:
            out[n] = float(p[4])
    return out


def run(case, rec):
    spec = case["spec"]
    names = [n for n, _ in spec["params"]]
    funcs = [n for n, _ in spec["funcs"]]
    prior = list(spec["prior"]) if spec["prior"] else None
    m = mods.read(spec)
    cur = {n: float(v) for n, v in spec["params"]}
    lks = [3, 17]
    pending = {}
    changed = 0
    if not usable(Ref(spec)):
        return "skip"

    def vec(d):
        return [d[n] for n in names]

    def check(ret=None):
        ref = Ref(spec, cur)
        if ret is not None:
            expect_close(ret, vec(cur), "set_par returned other values than were set", atol=1e-12)
        with must_work("get_par"):
            expect_close(m.get_par(), vec(cur), "get_par() after %s" % op, atol=1e-12)
            for n in names:
                expect_close(m.get_par(n), cur[n], "get_par(%r) after %s" % (n, op), atol=1e-12)
            for n in funcs:
                expect_close(m.get_par(n), ref.env[n], "get_par(%r) after %s" % (n, op), atol=1e-9)
            if prior:
                expect_close(m.get_par(full=False), [cur[n] for n in prior], "get_par(full=False)", atol=1e-12)
                d = m.get_par(full=False, asdict=True)
                expect(list(d) == prior, "names of the estimated parameters: %s" % list(d))
                for n in prior:
                    expect_close(d[n], round(cur[n], 5), "get_par as dict, %r" % n, atol=1e-7)
            d, f = m.get_par(asdict=True)
            expect(list(d) == names and list(f) == funcs, "names in get_par(asdict=True)")
            for n in names:
                expect_close(d[n], cur[n], "get_par as dict, %r" % n, atol=2e-5)
            for n in funcs:
                expect_close(f[n], ref.env[n], "get_par as dict, %r" % n, atol=2e-5)
        # the system follows
        P, Q = ref.linear()
        expect_close(m.sys[2], ref.x_bar, "bound after %s" % op)
        expect_close(list(m.lks), lks, "search limits after %s" % op)
        x, xr = mods.zero(m), np.zeros(ref.n)
        with must_work("t_func"):
            for r in case["rows"]:
                x, (l, k), flag = m.t_func(x, mods.shockvec(m, r), return_k=True)
                e = np.array([r.get(s, 0.0) for s in ref.shocks])
                try:
                    xr = ref.step(xr, e, 0 if k == 0 else l, k)
                except np.linalg.LinAlgError:
                    break
                sc = 1 + np.max(np.abs(xr))
                if sc > 1e4:
                    break
                expect_close(mods.pick(m, x, spec["vars"]), ref.byname(xr, spec["vars"]),
                             "state after %s" % op, rtol=1e-6, scale=sc)
                if k:
                    rec.label("binding")
                o = np.asarray(m.obs(np.atleast_2d(x)))[0]
                expect_close(o, ref.H @ xr + ref.h, "observables after %s" % op, rtol=1e-6, scale=sc)
        with must_work("get_cov"):
            S = np.asarray(m.get_cov(), float)
        i = [list(m.shocks).index(s) for s in spec["shocks"]]
        expect_close(S[np.ix_(i, i)], np.diag(ref.sig), "shock scales after %s" % op)

    def lmap(shock, size, l, k):
        """What the rule calls for at the end of hypothetical spells."""
        ref = Ref(spec, cur)
        with must_work("k_map"):
            stt = np.asarray(m.shock2state((shock, size)), float)
            LS, KS = m.k_map(stt, l=l, k=k, verbose=False)
        expect(len(LS) == lks[0] and len(KS) == lks[1], "k_map: sizes %s, %s with limits %s" % (len(LS), len(KS), lks))
        want = np.zeros(len(stt))
        want[len(stt) - len(m.shocks) + list(m.shocks).index(shock)] = size
        expect_close(stt, want, "shock2state")
        e = np.array([size if z == shock else 0.0 for z in ref.shocks])
        for got, pairs in ((LS, [(i, k) for i in range(lks[0])]), (KS, [(l, i) for i in range(lks[1])])):
            for g, (a, b) in zip(got, pairs):
                try:
                    X, S = ref.path(np.zeros(ref.n), e, a, b, a + b + 1)
                except (np.linalg.LinAlgError, ArithmeticError):
                    break
                sc = 1 + np.max(np.abs(X))
                if not sc < 1e3 or big(ref, a, b):
                    break
                expect_close(g, S[a + b] - ref.x_bar, "k_map after %s at (%d, %d)" % (op, a, b), rtol=1e-6, scale=sc)
                rec.label("map")

    op = "reading"
    with must_work("set_par"):
        r = m.set_par([float(v) for v in m.par_fix])
    check(r)
    for op in case["ops"]:
        kind = op[0]
        new = dict(cur)
        if kind == "full":
            new = dict(zip(names, op[1]))
        elif kind == "one":
            new[op[1]] = op[2]
        elif kind == "some" and prior:
            new.update(op[1])
        elif kind == "set":
            if op[1] != "calib" and not prior:
                continue
            new = pset(spec, op[1])
        if kind in ("full", "one", "some", "set"):
            try:
                rr = Ref(spec, new)
                ok = usable(rr) and rr.x_bar < 0
            except (ArithmeticError, ValueError):
                ok = False
            if not ok:
                rec.label("unusable")
                continue
        if kind == "full":
            v = list(op[1])
            v = np.array(v) if op[2] == "array" else tuple(v) if op[2] == "tuple" else v
            keep = copy.deepcopy(v)
            with must_work("set_par(vector)"):
                r = m.set_par(v)
            expect(np.array_equal(np.asarray(v), np.asarray(keep)), "set_par changed its argument")
            cur = {n: float(x) for n, x in new.items()}
            changed += 1
            check(r)
        elif kind == "one":
            with must_work("set_par(name, value)"):
                r = m.set_par(op[1], op[2])
            cur = {n: float(x) for n, x in new.items()}
            changed += 1
            check(r)
        elif kind == "some":
            if not prior or len(prior) == len(names):
                continue
            v = [op[1][n] for n in prior]
            v = np.array(v) if op[2] == "array" else v
            with must_work("set_par(estimated parameters)"):
                r = m.set_par(v)
            cur = {n: float(x) for n, x in new.items()}
            changed += 1
            check(r)
        elif kind == "set":
            with must_work("set_par(%r)" % op[1]):
                r = m.set_par(op[1])
            cur = {n: float(x) for n, x in new.items()}
            changed += 1
            rec.label("named set")
            check(r)
        elif kind == "none":
            with must_work("set_par()"):
                r = m.set_par()
            check(r)
        elif kind == "lk":
            rec.label("limits %s" % ",".join("-" if x is None else str(x) if i == 0 else "k" for i, x in enumerate(op[1:])))
            with must_work("set_par with limits"):
                r = m.set_par(vec(cur), **{n: x for n, x in zip(("l_max", "k_max"), op[1:]) if x is not None})
            lks = [lks[0] if op[1] is None else max(op[1], 2) + 1, lks[1] if op[2] is None else op[2]]
            check(r)
        elif kind == "cov":
            check()
        elif kind == "map":
            lmap(op[1], op[2], op[3], min(op[4], lks[1]))
        elif kind == "npar":
            d = op[4]
            est = bool(op[3] and prior and op[1] in prior and len(prior) < len(names))
            v = np.array([float(d[n]) for n in (prior if est else names)])
            keep = v.copy()
            with must_work("set_par(name, value, npar)"):
                w = m.set_par(op[1], op[2], npar=v)
            keep2 = keep.copy()
            keep2[(prior if est else names).index(op[1])] = op[2]
            expect_close(w, keep2, "set_par(..., npar=...)", atol=1e-12)
            with must_work("get_par(npar=...)"):
                g = m.get_par(npar=keep.copy())
            want = dict(cur)
            want.update(dict(zip(prior if est else names, keep)))
            expect_close(g, vec(want), "get_par(npar=...)", atol=1e-12)
            check()
        elif kind == "get":
            if op[1] != "calib" and not prior:
                continue
            with must_work("get_par(%r)" % op[1]):
                g = m.get_par(op[1], full=True)
            expect_close(g, vec(pset(spec, op[1])), "get_par(%r)" % op[1], atol=1e-12)
            if prior:
                with must_work("get_par(%r)" % op[1]):
                    g = m.get_par(op[1], full=False)
                ps = pset(spec, op[1])
                expect_close(g, [ps[n] for n in prior], "get_par(%r, full=False)" % op[1], atol=1e-12)
            expect_close(m.par_fix, [float(v) for _, v in spec["params"]], "the stored calibration")
            with must_work("set_par(vector)"):
                r = m.set_par(vec(cur))
            check(r)
        elif kind == "bad":
            what = op[1]
            try:
                with quiet():
                    if what == "name":
                        m.set_par("ghost", 0.5)
                    elif what == "func":
                        m.set_par(funcs[0] if funcs else "ghost", 0.5)
                    elif what == "set":
                        m.get_par("no_such_set")
                    else:
                        m.set_par("x_bar" if "x_bar" in names else "xlev", 3.0 if "x_bar" in names else -3.0)
            except (SyntaxError, KeyError, NotImplementedError):
                pass
            except Exception as e:  # noqa
                raise Violation("%s: %s was reported as %s: %s" % (op, what, type(e).__name__, e))
            else:
                raise Violation("%s was accepted" % op)
            rec.label("refused")
            check()
    return "changed" if changed else False


PARTS = [
    Part(
        "history",
        case,
        run,
        "histories of full, partial, single, named and refused parameter changes (integers and floats, lists, arrays and tuples, with and without priors, 4 to 13 parameters), every way to read them back after each step; non-trivial: at least one accepted change",
        quick=1000,
        cap=75,
    ),
]
