"""With a process pool, results are those of serial execution."""
import warnings

import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable
from checks.C12 import warm  # noqa
from checks.C12 import lin_model, data_of, frame

ASSUMPTIONS = [
    "pools of two or three processes started by fork (Linux)",
    "models with as many observables as shocks and a prior section",
]


@st.composite
def case(draw):
    spec = draw(lin_model())
    spec = draw(cases.with_prior(spec, hi=3))
    for n, p in spec["prior"].items():
        if p[-3] == "inv_gamma_dynare":
            p[-3] = "inv_gamma"
    q = len(spec["obs"])
    pars = [draw(cases.params(spec)) for _ in range(draw(st.integers(2, 5)))]
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        op = draw(st.sampled_from(["irfs", "irfs", "simulate", "simulate", "extract", "extract", "prior", "mcmc", "set", "lprob", "pool"]))
        ops.append(
            {
                "op": op,
                "rows": draw(cases.shock_rows(spec, 1, 4, top=draw(st.sampled_from([150, 400])))),
                "pick": draw(st.lists(st.integers(0, len(pars) - 1), min_size=2, max_size=5)),
                "n": draw(st.integers(1, 6)),
                "seed": draw(st.integers(0, 1000)),
                "flag": draw(st.booleans()),
            }
        )
    return {
        "spec": spec,
        "pars": pars,
        "data": draw(data_of(q, 2, 4)),
        "linear": draw(st.integers(0, 3)) > 0,
        "trans": draw(st.booleans()),
        "ncores": draw(st.sampled_from([2, 2, 3])),
        "ops": ops,
        "perm": draw(st.permutations(range(q))),
    }


def close(m):
    p = getattr(m, "pool", None)
    if p:
        try:
            p.close()
            p.terminate()
            p.join()
            p.clear()
        except Exception:  # noqa
            pass


def arr(x):
    return np.array(np.asarray(x).tolist(), float)


def same(a, b, what):
    a, b = arr(a), arr(b)
    expect(a.shape == b.shape, "%s: shape %s with a pool, %s without" % (what, a.shape, b.shape))
    if np.array_equal(a, b, equal_nan=True):
        return
    expect_close(np.nan_to_num(a), np.nan_to_num(b), what + " with and without a pool", rtol=1e-8)


def outcome(f):
    """Result or the error it ends with."""
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", f()
        except Exception as e:  # noqa
            return "error", e


def run(c, rec):
    spec = c["spec"]
    prior = spec["prior"]
    mean = {n: (0.5 * (p[-2] + p[-1]) if p[-3] == "uniform" else p[-2]) for n, p in prior.items()}
    init = {n: (dict(map(tuple, spec["params"]))[n] if len(p) == 3 or str(p[0]) == "None" else float(p[0])) for n, p in prior.items()}
    try:
        if not usable(Ref(spec, mean)) or not usable(Ref(spec, init)):
            return False
    except (ArithmeticError, ValueError, OverflowError, np.linalg.LinAlgError):
        return False
    A, B = mods.read(spec), mods.read(spec)
    A.debug = False
    try:
        return run_in(c, rec, A, B)
    finally:
        close(A)


def run_in(c, rec, A, B):
    spec = c["spec"]
    kw = dict(linear=c["linear"], dry_run=False, verbose=False, seed=1, use_prior_transform=c["trans"], N=20)
    with must_work("prep_estim"):
        for m in (A, B):
            m.load_data(frame(spec, c["data"], c["perm"]))
        A.prep_estim(ncores=c["ncores"], **kw)
        B.prep_estim(debug=True, **kw)
    expect(A.pool is not None and B.pool is None, "prep_estim and the pool")
    names = [n for n, _ in spec["params"]]
    vecs = []
    order = list(A.vv)
    for par in c["pars"]:
        v = dict(map(tuple, spec["params"]))
        v.update(par)
        v = [float(v[n]) for n in names]
        st_, r = outcome(lambda: B.set_par(v))
        ok = st_ == "ok" and list(B.vv) == order
        vecs.append((v, ok))
    with must_work("set_par"):
        B.set_par("prior_mean")
        A.set_par("prior_mean")
    R = np.eye(len(spec["obs"])) * 0.3
    A.filter.R = R
    B.filter.R = R
    hit = 0
    for o in c["ops"]:
        op = o["op"]
        good = [vecs[i][0] for i in o["pick"] if vecs[i][1]]
        if op == "set":
            v = vecs[o["pick"][0]]
            if v[1]:
                with must_work("set_par"):
                    A.set_par(v[0])
                    B.set_par(v[0])
            continue
        if op == "pool":
            with must_work("create_pool"):
                if o["flag"]:
                    A.create_pool(ncores=2 + o["n"] % 2)
                else:
                    A.create_pool()
            continue
        if op == "lprob":
            v = list(mods.np.array(B.par_fix)[B.prior_arg])
            a = outcome(lambda: A.lprob(np.array(v), verbose=False, use_prior_transform=False))
            b = outcome(lambda: B.lprob(np.array(v), verbose=False, use_prior_transform=False))
            what = "lprob"
        elif op == "irfs":
            if not good:
                continue
            lst = [(s, v, t) for t, r in enumerate(o["rows"]) for s, v in r.items()]
            if not lst:
                continue
            a, b = (outcome(lambda m=m: m.irfs(lst, np.array(good), T=len(o["rows"]) + 1, verbose=False)) for m in (A, B))
            if a[0] == b[0] == "ok":
                a = "ok", list(a[1][:2]) + [a[1][2]]
                b = "ok", list(b[1][:2]) + [b[1][2]]
            what = "irfs"
        elif op == "simulate":
            if not good:
                continue
            E = np.array([mods.shockvec(A, r) for r in o["rows"]])
            n = len(good)
            src = {"pars": good, "resid": [E * (1 + 0.1 * i) for i in range(n)], "init": [np.full(len(order), 0.1 * i) for i in range(n)]}
            a, b = (outcome(lambda m=m: m.simulate(src)) for m in (A, B))
            if a[0] == b[0] == "ok":
                a, b = (("ok", [r[1][0], r[1][1][0], r[1][1][1], r[1][2]]) for r in (a, b))
            what = "simulate"
        elif op == "extract":
            if not good:
                continue
            if not c["linear"]:
                good = good[:2]
            xk = {} if c["linear"] else {"frtol": -1e9, "nsamples": 1}
            a, b = (outcome(lambda m=m: m.extract(np.array(good), seed=o["seed"], verbose=False, **xk)) for m in (A, B))
            if a[0] == b[0] == "ok":
                a, b = (("ok", [r[1]["pars"], r[1]["init"], r[1]["resid"]]) for r in (a, b))
            what = "extract"
            # a serial extraction leaves the model at the parameters of the last sample
            par = [float(x) for x in A.par]
            with must_work("set_par"):
                A.set_par(par)
                B.set_par(par)
        elif op == "prior":
            a, b = (outcome(lambda m=m: m.prior_sampler(o["n"], seed=o["seed"], verbose=False, try_parameter=o["flag"], check_likelihood=o["flag"] and o["n"] % 2 == 0)) for m in (A, B))
            what = "prior_sampler"
            # serial sampling tries the draws on the model itself
            par = list(A.par)
            with must_work("set_par"):
                A.set_par(par)
                B.set_par(par)
        else:
            nw = 8
            p0 = outcome(lambda: np.array(B.prior_sampler(nw, seed=o["seed"], verbose=False, check_likelihood=True)))
            with must_work("set_par"):
                B.set_par([float(x) for x in A.par])
            if p0[0] == "error":
                continue
            def go(m):
                m.mcmc(p0[1].copy(), nsteps=1 + o["n"] % 3, tune=1, seed=o["seed"], backend=False, verbose=False)
                return [m.get_chain(), m.get_log_prob(), m.fdict["mode_x"], m.fdict["mode_f"]]
            a, b = outcome(lambda: go(A)), outcome(lambda: go(B))
            # a serial chain leaves the model at the parameters evaluated last
            with must_work("set_par"):
                par = [float(x) for x in A.par]
                A.set_par(par)
                B.set_par(par)
            what = "mcmc"
        if a[0] != b[0]:
            raise Violation("%s: %s with a pool, %s without (%r, %r)" % (what, a[0], b[0], a[1], b[1]))
        if a[0] == "error":
            expect(type(a[1]).__name__ == type(b[1]).__name__, "%s: %r with a pool, %r without" % (what, a[1], b[1]))
            rec.label(what + " refused")
            continue
        if isinstance(a[1], list):
            for x, y in zip(a[1], b[1]):
                same(x, y, what)
        else:
            same(a[1], b[1], what)
        expect_close(A.par, B.par, "parameters after %s" % what, rtol=1e-12)
        rec.label(what)
        hit += what not in ("lprob",)
    return "pool" if hit else False


PARTS = [
    Part(
        "pool",
        case,
        run,
        "random models with data and priors; 2-5 operations that use the pool (batches of impulse responses, simulations, extractions, prior draws, chains) or change parameters or the pool, against a copy that works serially; non-trivial: a batch compared",
        quick=96,
        cap=60,
    ),
]
