"""The nonlinear filter is the ensemble filter of the model's transition and observation equations."""
import copy
import warnings

import hypothesis.strategies as st
import numpy as np
import scipy.linalg as sl

from vlib import mods, cases
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.gauss import obs_matrix
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable
from checks.C12 import warm  # noqa
from checks.C12 import lin_model, data_of, noise, cov_of, sigs, frame

ASSUMPTIONS = [
    "as many observables as shocks, at least two (others are refused by the code)",
    "the filter algorithm itself (econsieve) is trusted: it is run on the given data with transition, observation equations and covariances that are put together independently",
    "the optimiser that looks for shocks (grgrlib) stops at once where the objective is negative; it is asked for precision (frtol) so that what it returns can be judged",
    "samples where perturbing the data by 1e-13 changes the result by more than 1e-4 are not judged",
]


@st.composite
def case(draw):
    spec = draw(lin_model())
    q = len(spec["obs"])
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        par = draw(cases.params(spec))
        if draw(st.booleans()):
            par.update(sigs(draw, spec))
        nz = draw(noise(q))
        runs.append(
            {
                "par": par,
                "data": draw(data_of(q, 2, 6)) if draw(st.integers(0, 2)) else None,
                "mul": draw(st.sampled_from([1, 1, 0.2, 3])),
                "R": nz if nz[0] != "scale" else ["none"],
                "new": draw(st.booleans()),
                "reduced": draw(st.booleans()),
                "N": draw(st.one_of(st.none(), st.integers(3, 20))),
                "seed": draw(st.sampled_from([None, None, 0, 5])),
                "fseed": draw(st.sampled_from([None, None, 0, 3])),
                "what": draw(st.permutations(["ll", "filter", "smooth"])),
                "P0": draw(st.integers(0, 4)) == 0,
            }
        )
    return {"spec": spec, "data": draw(data_of(q, 2, 6)), "runs": runs, "perm": draw(st.permutations(range(q)))}


def oracle(m, ref, obs, Y, R, Q, P, N, seed, fseed, reduced, what):
    """The same filter, set up from scratch around the transition of the model."""
    from econsieve import TEnKF

    n = len(m.vv)
    nq = P.shape[0] if reduced else n
    H, h = obs_matrix(ref, obs)
    pos = [list(m.vv).index(z) for z in ref.spec["vars"]]
    Hm = np.zeros((len(obs), n))
    Hm[:, pos] = H[:, [ref.ix[z] for z in ref.spec["vars"]]]
    f = TEnKF(N=N, dim_x=nq, dim_z=len(obs), seed=seed)
    f.R, f.Q, f.P = R, Q, P

    def full(x, e):
        if reduced:
            x = np.hstack((np.zeros(n - nq), x))
        return m.t_func(x, e)

    if reduced:

        def step(x, e):
            s, fl = full(x, e)
            return (s[n - nq :], Hm @ s + h), fl

        f.t_func, f.o_func = step, None
    else:
        f.t_func, f.o_func = full, lambda X: X @ Hm.T + h
    res = f.batch_filter(Y, calc_ll=what == "ll", store=what == "smooth", seed=fseed)
    if what == "smooth":
        res = f.rts_smoother(res)
    return np.array(res)


def run(c, rec):
    spec = c["spec"]
    m = mods.read(spec)
    names = [o[0] for o in spec["obs"]]
    q = len(names)
    data = c["data"]
    first = True
    hit = 0
    R, N, red, seed = np.eye(q), None, False, None
    for r in c["runs"]:
        ref = Ref(spec, r["par"])
        if not usable(ref):
            continue
        try:
            with quiet():
                mods.setp(m, r["par"])
        except ValueError:
            continue
        vs = spec["vars"]
        obs = list(m.observables)
        if r["data"] is not None or first:
            data = (np.array(r["data"] or data) * r["mul"]).tolist()
            with must_work("load_data"):
                m.load_data(frame(spec, data, c["perm"]))
        Y = np.array(data)[:, [names.index(o) for o in obs]]
        if first or r["new"]:
            R = cov_of(r["R"], q)
            red, seed = r["reduced"], r["seed"]
            kw = {} if r["N"] is None else {"N": r["N"]}
            with must_work("create_filter"):
                m.create_filter(R=R, reduced_form=red, seed=seed, **kw)
            R = np.eye(q) if R is None else R
            N = r["N"] or m.filter.N
            first = False
            expect(N > 1 or r["N"] is None, "size of the ensemble")
            if N < 2:
                first = True
                continue
        s = np.array([ref.env[spec["sigs"][z]] for z in m.shocks])
        expect_close(m.filter.Q, np.diag(s**2), "covariance of the shocks in the filter", rtol=1e-10)
        T = len(Y)
        nx = len(m.vv) - (m.dimp if red else 0)
        if not nx:
            # nothing to filter in reduced form
            continue
        kw = {}
        if r["P0"]:
            P0 = 0.3 * np.eye(nx) + 0.1
            kw["init_cov"] = P0
        res = {}
        for what in r["what"]:
            st0 = m.data.copy()
            with must_work("nonlinear filter"):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        if what == "ll":
                            res[what] = np.array(m.get_ll(seed=r["fseed"], **kw))
                        else:
                            res[what] = np.array(m.run_filter(smoother=what == "smooth", seed=r["fseed"], **kw))
                    except (np.linalg.LinAlgError, ValueError) as e:
                        if not isinstance(e, np.linalg.LinAlgError) and "NaN" not in str(e):
                            raise
                        # judged below: the trusted filter may not manage (say, no square root of a singular covariance)
                        res[what] = e
            expect(m.data.equals(st0), "the filter changed the data")
        P = np.array(m.filter.P)
        if r["P0"]:
            expect(np.array_equal(P, P0), "the initial covariance is not the given one")
            m.filter.init_cov = None
        else:
            Pl, Ql = ref.linear()
            sr = np.array([ref.env[spec["sigs"][z]] for z in ref.shocks])
            S = sl.solve_discrete_lyapunov(Pl, Ql @ np.diag(sr**2) @ Ql.T)
            order = list(m.vv)[len(m.vv) - nx :]
            both = [z for z in vs if z in order]
            ix = [order.index(z) for z in both]
            jx = [ref.ix[z] for z in both]
            sc = np.max(np.abs(S)) + 1
            if sc > 1e6:
                continue
            expect_close(P[np.ix_(ix, ix)], S[np.ix_(jx, jx)], "initial covariance is not the stationary one", rtol=1e-6, scale=sc)
        Qf = np.array(m.filter.Q)
        for what in r["what"]:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    want = [oracle(m, ref, obs, Y * (1 + d), R, Qf, P, N, seed, r["fseed"], red, what) for d in (0, 1e-13, -1e-13)]
                except (np.linalg.LinAlgError, ArithmeticError, ValueError):
                    continue
            got = res[what]
            if isinstance(got, Exception):
                raise Violation("nonlinear filter (%s) raised %r, the same filter around the transition does not" % (what, got))
            if what == "ll" and np.isnan(want[0]):
                expect(got == -np.inf, "likelihood %r instead of zero" % got)
                continue
            sc = 1 + np.max(np.abs(want[0]))
            if not np.all(np.isfinite(want)) or sc > 1e6:
                continue
            spread = max(np.max(np.abs(want[0] - w)) for w in want[1:])
            if spread > 1e-4 * sc:
                rec.label("ill-conditioned")
                continue
            if what != "ll":
                expect(got.shape == (N, T, nx), "%s: shape %s" % (what, got.shape))
            expect_close(got, want[0], {"ll": "likelihood", "filter": "filtered ensemble", "smooth": "smoothed ensemble"}[what] + (" (reduced form)" if red else ""), rtol=1e-6, atol=100 * spread, scale=sc)
            rec.label(what + (" reduced" if red else ""))
            hit += 1
    return "ensemble" if hit else False


@st.composite
def ex_case(draw):
    spec = draw(lin_model())
    q = len(spec["obs"])
    pars = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        par = draw(cases.params(spec))
        if draw(st.booleans()):
            par.update(sigs(draw, spec))
        pars.append(par)
    return {
        "spec": spec,
        "pars": pars,
        "rows": draw(cases.shock_rows(spec, 3, 4, top=draw(st.sampled_from([150, 400])))),
        "noise": draw(st.integers(2, 40)) / 100.0,
        "N": draw(st.integers(30, 60)),
        "reduced": draw(st.integers(0, 3)) == 0,
        "nsamples": draw(st.sampled_from([1, 1, 2])),
        "seed": draw(st.integers(0, 1000)),
        "perm": draw(st.permutations(range(q))),
        "one": draw(st.booleans()),
    }


def run_ex(c, rec):
    from econsieve.stats import logpdf

    spec = c["spec"]
    m = mods.read(spec)
    names = [o[0] for o in spec["obs"]]
    jobs = []
    order = None
    data = None
    for par in c["pars"]:
        ref = Ref(spec, par)
        if not usable(ref):
            continue
        try:
            with quiet():
                mods.setp(m, par)
        except ValueError:
            continue
        if order is None:
            order = list(m.vv)
        if list(m.vv) != order:
            continue
        if data is None:
            # data that the model can produce
            x, data = mods.zero(m), []
            for r in c["rows"]:
                x, fl = m.t_func(x, mods.shockvec(m, r))
                data.append(np.asarray(m.obs(x), float).reshape(-1))
            if not np.max(np.abs(data)) < 50:
                return False
        jobs.append((par, ref, [float(x) for x in m.par]))
    if not jobs:
        return False
    q = len(names)
    obs = list(m.observables)
    R = np.eye(q) * c["noise"] ** 2
    dd = [[row[obs.index(n)] for n in names] for row in data]
    Y = np.array(data)
    T = len(Y)
    if c["one"]:
        jobs = jobs[-1:]
    with must_work("create_filter"):
        m.set_par(jobs[-1][2])
        m.load_data(frame(spec, dd, c["perm"]))
        m.create_filter(R=R, N=c["N"], reduced_form=c["reduced"])
    arg = {} if c["one"] else {"sample": np.array([j[2] for j in jobs])}
    ed = []
    for k in range(2):
        np.random.seed(k)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with quiet():
                    mm = copy.deepcopy(m)
                    ed.append(mm.extract(nsamples=c["nsamples"], seed=c["seed"], verbose=False, frtol=-1e9, **arg))
            except (np.linalg.LinAlgError, FloatingPointError, ValueError) as e:
                # the optimiser is allowed to give up
                if "unsuccessful" in str(e) or isinstance(e, np.linalg.LinAlgError):
                    return False
                P = np.array(mm.filter.P)
                if np.all(np.isfinite(P)):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if not np.all(np.isfinite(sl.sqrtm(P))):
                            # the trusted filter finds no square root of a singular covariance
                            return False
                raise
    n = len(jobs) * c["nsamples"]
    for key in ("pars", "init", "resid"):
        a, b = (np.array(np.asarray(e[key]).tolist(), float) for e in ed)
        expect(np.array_equal(a, b), "extract: the same seed gives other results (%s)" % key)
        expect(len(a) == n, "extract: %d samples, expected %d (%s)" % (len(a), n, key))
    e = ed[0]
    gaps = []
    resid = np.array(np.asarray(e["resid"]).tolist(), float)
    expect(resid.shape == (n, T - 1, len(m.shocks)), "extract: shape of the shocks %s" % (resid.shape,))
    hit = 0
    for i in range(n):
        par, ref, v = jobs[i // c["nsamples"]]
        expect_close(np.asarray(e["pars"][i], float), v, "extract: parameters of sample %d" % i, rtol=1e-12)
        with must_work("filter"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m.set_par(v)
                m.create_filter(R=R, N=c["N"])
                X = np.array(m.run_filter(smoother=True))
        init = np.asarray(e["init"][i], float)
        d = np.max(np.abs(X[:, 0] - init), axis=1)
        j = int(np.argmin(d))
        if not np.all(np.isfinite(X)) or np.max(np.abs(X)) > 1e3:
            continue
        expect(d[j] < 1e-4 * (1 + np.max(np.abs(X))), "extract: sample %d starts at a state that is not in the smoothed ensemble" % i)
        if np.sort(d)[1] < 1e-3:
            continue
        H, h = obs_matrix(ref, obs)
        pos = [list(m.vv).index(z) for z in spec["vars"]]
        Hm = np.zeros((q, len(m.vv)))
        Hm[:, pos] = H[:, [ref.ix[z] for z in spec["vars"]]]
        view = lambda s: np.concatenate((s @ Hm.T + h, s[..., m.dimp :]), axis=-1)  # noqa
        Z = view(X)
        s = np.array([ref.env[spec["sigs"][z]] for z in m.shocks])
        x = init
        for t in range(1, T):
            C = np.cov(Z[:, t].T)
            target = Z[j, t]

            def val(eps):
                y, fl = m.t_func(x, eps)
                return np.inf if fl else -logpdf(view(y), target, C)

            f0 = val(resid[i, t - 1])
            if not np.isfinite(f0):
                break
            # nothing nearby is clearly better
            best = f0
            for k in range(len(s)):
                for z in (0.02, -0.02, 0.3, -0.3, 1.5, -1.5):
                    w = resid[i, t - 1].copy()
                    w[k] += z * s[k]
                    if abs(w[k]) < 7 * s[k]:
                        best = min(best, val(w))
            best = min(best, val(0 * s))
            gaps.append(f0 - best)
            if not f0 <= best + 50 + 0.2 * abs(best):
                raise Violation("extract: sample %d, period %d: shocks %s leave %r to the smoothed state, others %r" % (i, t, resid[i, t - 1].tolist(), f0, best))
            x = m.t_func(x, resid[i, t - 1])[0]
            hit += 1
    if len(gaps) >= 3 and np.median(gaps) > 0.5:
        # the optimiser may fail now and then, but not as a rule
        raise Violation("extract: in most periods, other shocks fit better (%s)" % (gaps,))
    if c["reduced"]:
        rec.label("from reduced form")
    if n > 1:
        rec.label("several samples")
    return "extraction" if hit else False


PARTS = [
    Part(
        "ensemble",
        case,
        run,
        "random models with two or three observables and shocks, 2-6 periods of arbitrary data, 1-4 rounds of parameters, data and filters on the same model: likelihood, filtered and smoothed ensembles in either form; non-trivial: a round that is not ill-conditioned",
        quick=400,
        cap=40,
    ),
    Part(
        "extraction",
        ex_case,
        run_ex,
        "random models, data simulated with the constraint, 1-2 parameter vectors and draws each; non-trivial: at least one period whose shocks were judged",
        quick=48,
        cap=40,
    ),
]
