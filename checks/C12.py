"""The linear likelihood is the density of the data under the model."""
import hypothesis.strategies as st
import numpy as np
import pandas as pd

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.gauss import Joint
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable
from checks.C03 import warm as warm3

ASSUMPTIONS = [
    "as many observables as shocks, at least two (others are refused by the code)",
    "covariances of the stacked data with a condition number below 1e9",
]


@st.composite
def lin_model(draw, **kw):
    if draw(st.integers(0, 3)) == 0:
        s = draw(mg.nk_spec(n_obs=3, **kw))
    elif draw(st.integers(0, 3)) == 0:
        # as many states as shocks
        m = draw(st.sampled_from([2, 3]))
        s = draw(mg.contraction_spec(max_endo=m - 1, min_endo=m - 1, min_shocks=m, max_shocks=m, n_obs=m, max_date=1, direct=True, **kw))
    else:
        m = draw(st.sampled_from([2, 2, 3]))
        s = draw(mg.contraction_spec(max_endo=draw(st.sampled_from([1, 2, 4])), min_shocks=m, max_shocks=m, n_obs=m, **kw))
    return s


@st.composite
def data_of(draw, q, lo=2, hi=10):
    T = draw(st.integers(lo, hi))
    return [[draw(st.integers(-300, 300)) / 100.0 for _ in range(q)] for _ in range(T)]


@st.composite
def noise(draw, q):
    k = draw(st.sampled_from(["none", "diag", "diag", "full", "scale"]))
    if k == "diag":
        return [k, [draw(st.integers(1, 150)) / 100.0 for _ in range(q)]]
    if k == "full":
        return [k, [[draw(st.integers(-10, 10)) / 10.0 for _ in range(q)] for _ in range(q)]]
    if k == "scale":
        return [k, draw(st.sampled_from([0.1, 0.3, 1.0]))]
    return [k]


def cov_of(nz, q):
    if nz[0] == "none":
        return None
    if nz[0] == "diag":
        return np.diag(np.array(nz[1]) ** 2)
    if nz[0] == "full":
        A = np.array(nz[1])
        return A @ A.T + 0.05 * np.eye(q)
    return "scale"


def sigs(draw, spec):
    return {p: draw(st.integers(2, 30)) / 10.0 for p in spec["sigs"].values()}


@st.composite
def case(draw):
    spec = draw(lin_model())
    q = len(spec["obs"])
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        par = draw(cases.params(spec))
        if draw(st.booleans()):
            par.update(sigs(draw, spec))
        runs.append(
            {
                "par": par,
                "data": draw(data_of(q)) if draw(st.integers(0, 2)) else None,
                "R": draw(noise(q)),
                "new": draw(st.booleans()),
                "again": draw(st.sampled_from(["ll", "smooth", "no", "filter"])),
                "P0": draw(st.integers(0, 5)) == 0,
                "via": draw(st.sampled_from(["get_ll", "run_filter"])),
            }
        )
    return {"spec": spec, "data": draw(data_of(q)), "runs": runs, "perm": draw(st.permutations(range(q)))}


def frame(spec, data, perm):
    """Columns in any order, plus one that is not an observable."""
    names = [o[0] for o in spec["obs"]]
    d = pd.DataFrame(np.array(data), columns=names)
    d = d[[names[i] for i in perm]]
    d.insert(1, "not_there", 7.0)
    return d


def run(case, rec):
    spec = case["spec"]
    m = mods.read(spec)
    names = [o[0] for o in spec["obs"]]
    q = len(names)
    data = case["data"]
    hit = 0
    R = np.eye(q)
    first = True
    for r in case["runs"]:
        ref = Ref(spec, r["par"])
        if not usable(ref):
            continue
        try:
            with quiet():
                mods.setp(m, r["par"])
        except ValueError:
            continue
        obs = list(m.observables)
        if r["data"] is not None or first:
            data = r["data"] or data
            with must_work("load_data"):
                m.load_data(frame(spec, data, case["perm"]))
        Y = np.array(data)
        T = len(Y)
        if first or r["new"]:
            # noise is given in the model's order of observables
            Rn = cov_of(r["R"], q)
            with must_work("create_filter"):
                if isinstance(Rn, str):
                    Rm = m.create_obs_cov(r["R"][1])
                    want = np.diag((Y[:, [names.index(o) for o in obs]].std(axis=0) * r["R"][1]) ** 2)
                    expect_close(Rm, want, "create_obs_cov", rtol=1e-9)
                    Rm = Rm + 1e-2 * np.eye(q)
                else:
                    Rm = None if Rn is None else Rn
                m.create_filter(R=Rm, ftype=["KF", "KalmanFilter"][r["again"] == "no"])
            R = np.eye(q) if Rm is None else np.array(Rm)
            first = False
        Yo = Y[:, [names.index(o) for o in obs]]
        ic = None
        kw = {}
        if r["P0"]:
            # states reached with half the usual variance
            S = np.zeros((len(m.vv), len(m.vv)))
            kw["init_cov"] = S
            ic = np.zeros((ref.n, ref.n))
        try:
            J = Joint(ref, obs, R, T, init_cov=ic)
            if J.cond() > 1e9:
                continue
            want = J.ll(Yo)
        except (np.linalg.LinAlgError, ArithmeticError):
            continue

        def ll():
            with must_work("likelihood"):
                if r["via"] == "get_ll":
                    return m.get_ll(**kw)
                return m.run_filter(smoother=False, get_ll=True, **kw)

        got = ll()
        expect(np.isscalar(got) or np.ndim(got) == 0, "likelihood is no number")
        tol = 1e-6 * (1 + abs(want)) + 1e-9 * J.cond()
        if not abs(got - want) <= tol:
            raise Violation("log-likelihood %r, density of the data %r" % (got, want))
        if r["again"] in ("smooth", "filter"):
            with must_work("run_filter"):
                m.run_filter(smoother=r["again"] == "smooth", **kw)
        if r["again"] != "no":
            g2 = ll()
            expect(abs(g2 - got) <= 1e-9 * (1 + abs(got)), "the likelihood changed from %r to %r when asked again" % (got, g2))
        expect(np.array_equal(np.array(m.data), Yo), "the data changed")
        if r["P0"]:
            # back to the default
            m.filter.init_cov = None
        hit += 1
        rec.label("T=%s" % ("2-4" if T < 5 else "5-10"))
        rec.label("noise " + r["R"][0])
        if len(m.vv) == len(m.shocks):
            rec.label("as many states as shocks")
        if not r["new"]:
            rec.label("filter reused")
    return "likelihood" if hit else False


def warm():
    warm3()
    from econsieve.stats import logpdf

    logpdf(np.zeros(2), np.zeros(2), np.eye(2))
    logpdf(x=np.zeros(2), mean=np.zeros(2), cov=np.eye(2))


PARTS = [
    Part(
        "likelihood",
        case,
        run,
        "random models with two or three observables and shocks, 2-10 periods of arbitrary data, 1-4 rounds of parameters, data and measurement noise on the same model; non-trivial: a round whose stacked covariance is well-conditioned",
        quick=480,
        cap=70,
    ),
]
