"""Linear solution: every declared equation holds along every path."""
import hypothesis.strategies as st
import numpy as np

from vlib import mods
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work
from vlib.modelgen import ev
from vlib.part import Part
from vlib.ref import Ref

ASSUMPTIONS = [
    "parameter draws whose roots lie within 1e-4 of the unit circle are skipped",
    "equality up to 1e-7 relative to the size of the path",
]


@st.composite
def case(draw, family):
    if family == "nk":
        spec = draw(mg.nk_spec())
    else:
        spec = draw(mg.contraction_spec())
    par = {}
    for n, v in spec["params"]:
        if n.startswith("a") and draw(st.booleans()):
            par[n] = draw(st.integers(1, 99)) / 100.0
        elif family == "nk" and n in RANGE and draw(st.booleans()):
            lo, hi = RANGE[n]
            par[n] = round(lo + (hi - lo) * draw(st.integers(0, 100)) / 100.0, 6)
    T = draw(st.integers(2, 8))
    shocks = []
    for t in range(T):
        row = {}
        for s in spec["shocks"]:
            if draw(st.booleans()):
                row[s] = draw(st.integers(-300, 300)) / 100.0
        shocks.append(row)
    if not any(any(r.values()) for r in shocks):
        shocks[0][spec["shocks"][0]] = 1.0
    return {
        "spec": spec,
        "style": draw(mg.style()),
        "par": par,
        "shocks": shocks,
        "how": draw(st.sampled_from(["t_func", "irfs", "set_k"])),
    }


RANGE = {
    "theta": (0.5, 0.95),
    "sigma": (0.5, 3),
    "phi_pi": (1.2, 3),
    "phi_y": (0.0, 0.5),
    "rho": (0.1, 0.95),
    "rho_u": (0.05, 0.97),
    "rho_z": (0.05, 0.97),
    "rho_r": (0.05, 0.9),
    "hh": (0.05, 0.9),
    "iot": (0.05, 0.9),
    "beta": (0.9, 0.999),
}


def residuals(ref, spec, hist, fore, eps, t):
    """Residual of each equation (constraint last) at time t.
    hist(v, j): value at t-j; fore(v, j): expectation at t of t+j."""
    out = []
    rows = [(q["lhs"], q["terms"]) for q in spec["eqs"]]
    rows.append((spec["cvar"], spec["con"]))
    for lhs, terms in rows:
        r = hist(lhs, 0)
        for e, s, d in terms:
            c = ev(e, ref.env)
            if s in spec["shocks"]:
                r -= c * eps(s, -d)
            elif d <= 0:
                r -= c * hist(s, -d)
            else:
                r -= c * fore(s, d)
        out.append(r)
    return np.array(out)


def run(case, rec):
    spec = case["spec"]
    ref = Ref(spec, case["par"])
    try:
        cl = ref.classify()
        if cl != "det":
            return "skip"
        P, Q = ref.linear()
    except ArithmeticError:
        return "skip"
    m = mods.read(spec, case["style"])
    with must_work("set_par on a determinate model"):
        mods.setp(m, case["par"])
    names = spec["vars"]
    T = len(case["shocks"])
    how = case["how"]
    x = mods.zero(m)
    X = []
    F = []
    with must_work("simulating the linear model"):
        if how == "irfs":
            lst = [
                (s, v, t) for t, r in enumerate(case["shocks"]) for s, v in r.items()
            ]
            out, lk, flag = m.irfs(lst, T=T, linear=True, verbose=False)
            XX = out.to_numpy()
            expect(np.all(np.asarray(lk) == 0), "linear irfs report a constraint")
            expect(list(out.columns) == list(m.vv), "irfs columns are not the variables")
        for t, r in enumerate(case["shocks"]):
            e = mods.shockvec(m, r)
            if how == "irfs":
                x = XX[t]
            elif how == "set_k":
                x, flag = m.t_func(x, e, set_k=(0, 0))
            else:
                x, flag = m.t_func(x, e, linear=True)
            X.append(mods.pick(m, x, names))
            y = x
            fs = []
            for _ in range(6):
                y, _f = m.t_func(y, linear=True)
                fs.append(mods.pick(m, y, names))
            F.append(fs)
        # what happens in the long run
        z = x
        top = 0.0
        for _ in range(60):
            z, _f = m.t_func(z, linear=True)
        tail = np.max(np.abs(mods.pick(m, z, names)))
    X = np.array(X)
    ix = {v: i for i, v in enumerate(names)}
    # reference path
    xr = np.zeros(ref.n)
    R = []
    for r in case["shocks"]:
        e = np.array([r.get(s, 0.0) for s in ref.shocks])
        xr = P @ xr + Q @ e
        R.append(ref.byname(xr, names))
    zr = xr
    for _ in range(60):
        zr = P @ zr
    R = np.array(R)
    scale = 1 + np.max(np.abs(R)) + np.max(np.abs(X))
    if not np.isfinite(scale):
        raise Violation("the linear solution is not finite")
    for t in range(T):

        def hist(v, j, t=t):
            return X[t - j, ix[v]] if t - j >= 0 else 0.0

        def fore(v, j, t=t):
            return F[t][j - 1][ix[v]]

        def eps(s, j, t=t):
            return case["shocks"][t - j].get(s, 0.0) if t - j >= 0 else 0.0

        res = residuals(ref, spec, hist, fore, eps, t)
        i = int(np.argmax(np.abs(res)))
        if not np.all(np.abs(res) < 1e-7 * scale):
            raise Violation(
                "period %d: equation %d (%s) is off by %g"
                % (t, i, "constraint" if i == len(res) - 1 else spec["eqs"][i]["lhs"], res[i])
            )
    expect_close(X, R, "path of the linear solution", rtol=1e-6, scale=scale)
    expect_close(
        mods.pick(m, z, names),
        ref.byname(zr, names),
        "the linear solution after 60 quiet periods",
        rtol=1e-6,
        scale=scale,
    )
    rec.label("far" if any(abs(d) > 1 for q in spec["eqs"] for _, _, d in q["terms"]) else "near")
    return how


def warm():
    import pydsge

    m = pydsge.DSGE.read(pydsge.example_model)
    m.debug = True
    m.set_par("calib")
    m.irfs(("e_u", 1, 0), verbose=False)


PARTS = [
    Part(
        "generated",
        lambda: case("gen"),
        run,
        "random linear model text (1-4 variables plus shock processes, lags and leads up to 3, MA shocks, lags and shocks in the constraint rule) and parameters; non-trivial: determinate and driven by at least one non-zero shock",
        quick=1600,
    ),
    Part(
        "new-keynesian",
        lambda: case("nk"),
        run,
        "New-Keynesian models with random structure and parameters; same rule",
        quick=400,
    ),
]
