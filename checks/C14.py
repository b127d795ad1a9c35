"""The posterior is prior times likelihood, whatever was evaluated before."""
import copy
import warnings

import hypothesis.strategies as st
import numpy as np

from vlib import dens, mods, cases
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.gauss import Joint
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable
from checks.C12 import warm  # noqa
from checks.C12 import lin_model, data_of, noise, cov_of, frame

ASSUMPTIONS = [
    "as many observables as shocks, at least two (others are refused by the code)",
    "parameters for which the solution or the filter gives numerical warnings are assigned a likelihood of zero by design: not judged",
    "the likelihood part is judged against the exact density for the linear filter only; for the ensemble filter it is compared with a filter run on another copy of the model",
]


@st.composite
def est_model(draw, hi=5):
    spec = draw(lin_model())
    return draw(cases.with_prior(spec, hi=hi))


@st.composite
def vector(draw, spec):
    """Estimated parameters: mostly inside, sometimes outside the support."""
    out = []
    for n, p in spec["prior"].items():
        lo, hi = {"sig": (0.1, 3.0)}.get(n[:3], cases.RANGE.get(n, (0.02, 0.98)))
        v = round(lo + (hi - lo) * draw(st.integers(0, 100)) / 100.0, 4)
        if draw(st.integers(0, 24)) == 0:
            v = draw(st.sampled_from([-1.0, 2.0, 30.0, 1.5]))
        out.append(v)
    return out


def inside(prior, vec):
    return all(
        (0.01 if n.startswith("sig") else cases.RANGE.get(n, (0, 1))[0]) <= x <= (3 if n.startswith("sig") else cases.RANGE.get(n, (0, 1))[1])
        for n, x in zip(prior, vec)
    )


@st.composite
def case(draw):
    spec = draw(est_model())
    q = len(spec["obs"])
    nz = draw(noise(q))
    T = draw(st.sampled_from([1, 1, 0.5, 0]))
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        o = draw(st.sampled_from(["eval", "eval", "eval", "eval", "llike", "set", "rng", "irfs", "again"]))
        ops.append([o, draw(vector(spec)), draw(st.sampled_from([1, 1, 1, 0.5, 0.1, 0]))])
    return {
        "spec": spec,
        "data": draw(data_of(q, 2, 8)),
        "R": nz if nz[0] != "scale" else ["none"],
        "ops": ops,
        "linear": draw(st.integers(0, 3)) > 0,
        "N": draw(st.integers(8, 30)),
        "seed": draw(st.sampled_from([None, 0, 3])),
        "trans": draw(st.integers(0, 3)) == 0,
        "perm": draw(st.permutations(range(q))),
        "pre": draw(st.booleans()),
    }


def prep(m, c, R):
    m.prep_estim(
        N=c["N"],
        linear=c["linear"],
        seed=c["seed"],
        use_prior_transform=c["trans"] or None,
        verbose=False,
        debug=True,
        dry_run=False,
    )
    if R is not None:
        m.filter.R = R


def run(c, rec):
    spec = c["spec"]
    prior = spec["prior"]
    m = mods.read(spec)
    names = [o[0] for o in spec["obs"]]
    q = len(names)
    mean = {n: (0.5 * (p[-2] + p[-1]) if p[-3] == "uniform" else p[-2]) for n, p in prior.items()}
    if not usable(Ref(spec, mean)):
        return False
    R = cov_of(c["R"], q)
    if c["pre"]:
        # what was done before does not matter
        with quiet():
            try:
                m.set_par(list(prior)[0], 0.3)
            except ValueError:
                pass
    with must_work("preparing the estimation"):
        m.load_data(frame(spec, c["data"], c["perm"]))
        prep(m, c, R)
    other = None if c["linear"] else copy.deepcopy(m)
    if other is not None:
        with must_work("preparing the estimation"):
            other.load_data(frame(spec, c["data"], c["perm"]))
            prep(other, c, R)
    Rm = np.eye(q) if R is None else R
    Y = np.array(c["data"])
    expect(m.ndim == len(prior), "ndim")
    expect(list(m.fdict["prior_names"]) == list(prior), "names of the estimated parameters")
    want_par = dict(map(tuple, spec["params"]))
    want_par.update(mean)
    expect_close(m.get_par(), [want_par[n] for n, _ in spec["params"]], "parameters after prep_estim", rtol=1e-12)
    kinds = [p[-3] for p in prior.values()]
    hit = 0
    seen = {}
    for op, vec, temp in c["ops"]:
        if op == "set":
            with quiet():
                try:
                    m.set_par(list(np.array(vec)) if len(vec) != len(m.par_fix) else "calib")
                except ValueError:
                    pass
            continue
        if op == "rng":
            np.random.seed(int(abs(vec[0]) * 100))
            continue
        if op == "irfs":
            with quiet():
                try:
                    m.irfs((spec["shocks"][0], 1, 0), T=3, verbose=False)
                except Exception:  # noqa
                    pass
            continue
        if op == "again" and seen:
            key = sorted(seen)[0]
            vec, temp, op = list(key[0]), key[1], key[2]
        elif op == "again":
            op = "eval"
        arg = list(vec)
        trans = c["trans"] and op == "eval"
        if trans:
            if not all(np.isfinite(dens.lprior({n: prior[n]}, [x])) for n, x in zip(prior, vec)):
                continue
            arg = [dens.backward(k, x) for k, x in zip(kinds, vec)]
        st0 = np.random.get_state()
        keep = np.array(arg)
        a = np.array(arg)
        with must_work("evaluating the posterior"):
            if op == "llike":
                got = m.llike(a, m.par_fix.copy(), c["linear"], False, c["seed"] or 0)
            else:
                got = m.lprob(a, temp=temp, verbose=False)
        st1 = np.random.get_state()
        expect(np.array_equal(a, keep), "the parameter vector was changed")
        expect(all(np.array_equal(x, y) for x, y in zip(st0, st1)), "the state of the random numbers was changed")
        got = float(got)
        expect(not np.isnan(got), "posterior of %s is nan" % (vec,))
        key = (tuple(vec), temp, op)
        if key in seen:
            expect(got == seen[key] or abs(got - seen[key]) < 1e-9 * (1 + abs(got)), "posterior of %s was %r, now it is %r" % (vec, seen[key], got))
            rec.label("asked again")
        seen[key] = got
        par = dict(zip(prior, vec))
        lp = dens.lprior(prior, vec) if op != "llike" else 0.0
        if not np.isfinite(lp):
            expect(got == -np.inf, "posterior of %s outside the support is %r" % (vec, got))
            rec.label("outside the support")
            continue
        if temp == 0 and op != "llike":
            expect_close(got, lp, "posterior at temperature zero", rtol=1e-8)
            hit += 1
            continue
        tt = temp if op != "llike" else 1.0
        try:
            ref = Ref(spec, par)
            reg = ref.classify()
        except (ArithmeticError, ValueError, OverflowError, np.linalg.LinAlgError):
            # the parameter functions are not defined here
            continue
        if reg in ("indet", "expl"):
            expect(got == -np.inf, "posterior of %s without a stable solution is %r" % (vec, got))
            rec.label("no solution")
            continue
        if reg != "det" or not usable(ref):
            continue
        if got == -np.inf and not inside(prior, vec):
            # parameter functions need not be defined far out
            rec.label("far out")
            continue
        if c["linear"]:
            try:
                obs = list(m.observables)
                J = Joint(ref, obs, Rm, len(Y))
                if J.cond() > 1e9:
                    continue
                ll = J.ll(Y[:, [names.index(o) for o in obs]])
            except (np.linalg.LinAlgError, ArithmeticError):
                continue
            tol = 1e-6 * (1 + abs(ll) + abs(lp)) + 1e-9 * J.cond()
        else:
            full = [float(par.get(n, v)) for n, v in spec["params"]]
            with must_work("ensemble filter"):
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    lls = []
                    for k in (0, 1, -1):
                        # how much does round-off alone matter?
                        near = [x * (1 + k * 2.3e-16 * (1 + i % 3)) if n in par else x for i, (x, n) in enumerate(zip(full, [n for n, _ in spec["params"]]))]
                        other.set_par(near, l_max=3, k_max=16)
                        np.random.seed(7)
                        lls.append(float(other.get_ll()))
                    ll = lls[0]
            if ws:
                # numerical warnings count as failures when estimating
                rec.label("warnings")
                continue
            spread = np.ptp(lls) if np.all(np.isfinite(lls)) else np.inf
            if not spread < 1e-3:
                rec.label("ill-conditioned")
                continue
            tol = 1e-6 * (1 + abs(ll) + abs(lp)) + 100 * spread
        want = ll * tt + lp
        if not abs(got - want) <= tol:
            raise Violation("%s of %s is %r; prior %r, likelihood %r, temperature %r" % (op, vec, got, lp, ll, tt))
        hit += 1
        rec.label("linear" if c["linear"] else "ensemble")
        if trans:
            rec.label("transformed")
    return "posterior" if hit else False


PARTS = [
    Part(
        "posterior",
        case,
        run,
        "random models with data and a prior section (six families, either notation), 2-8 operations: posterior or likelihood evaluations inside and outside the support at several temperatures, with and without transformation, mixed with other uses of the model; non-trivial: an evaluation with a finite value",
        quick=320,
        cap=70,
    ),
]
