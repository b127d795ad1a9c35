"""Occasionally binding constraint: what is returned without an error flag is an
equilibrium path (soundness)."""
import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib.core import Violation, expect, expect_close, must_work
from vlib.part import Part
from vlib.ref import Ref

ASSUMPTIONS = [
    "steps where a condition holds or fails by less than 1e-6 of the path's size are not judged",
    "transition rules with entries above 1e4 (long unstable pegs) are not judged",
]
TOL = 1e-6


@st.composite
def case(draw, fams=("gen", "gen", "nk")):
    spec = draw(cases.model(fams))
    seqs = []
    for _ in range(draw(st.integers(1, 5))):
        seqs.append(
            {
                "par": draw(cases.params(spec)),
                "rows": draw(cases.shock_rows(spec, 1, 6, top=draw(st.sampled_from([150, 400, 900])))),
                "lk": draw(st.sampled_from([None, None, None, [2, 5], [4, 10], [2, 17], [2, 0], [1, 8], [1, 17]])),
            }
        )
    return {"spec": spec, "seqs": seqs, "how": draw(st.sampled_from(["t_func", "t_func", "simulate", "irfs"]))}


def usable(ref):
    if not np.any(ref.A):
        # pydsge is for forward-looking models: it needs at least one control
        return False
    try:
        if ref.classify() != "det":
            return False
        P, Q = ref.linear()
    except (ArithmeticError, np.linalg.LinAlgError):
        return False
    return np.max(np.abs(P)) < 1e4


def big(ref, l, k):
    try:
        for j in range(k + 1):
            P, Q, c = ref.rule(0, j)
            if not (np.max(np.abs(P)) < 1e4 and np.max(np.abs(c)) < 1e4):
                return True
        P, Q, c = ref.rule(l, k)
        return not (np.max(np.abs(P)) < 1e4 and np.max(np.abs(c)) < 1e4)
    except np.linalg.LinAlgError:
        return True


def drive(m, spec, seq, how):
    """[(state, (l, k), flag)] from the steady state; names as in m.vv"""
    E = np.array([mods.shockvec(m, r) for r in seq["rows"]])
    out = []
    if how == "simulate":
        X, (L, K), flags = m.simulate(
            {"pars": [m.par], "resid": [E], "init": [mods.zero(m)]}
        )
        for t in range(len(E)):
            out.append((np.asarray(X[0])[t + 1], (int(L[0][t]), int(K[0][t])), None))
        if flags[0]:
            out = [(x, lk, 1) for x, lk, _ in out]
        else:
            out = [(x, lk, 0) for x, lk, _ in out]
    elif how == "irfs":
        lst = [(s, v, t) for t, r in enumerate(seq["rows"]) for s, v in r.items()]
        X, LK, flag = m.irfs(lst, T=len(E), force_init_equil=False, verbose=False)
        for t in range(len(E)):
            out.append((X.to_numpy()[t], (int(LK[0][t]), int(LK[1][t])), int(flag)))
    else:
        x = mods.zero(m)
        for e in E:
            x, lk, flag = m.t_func(x, e, return_k=True)
            out.append((np.asarray(x), (int(lk[0]), int(lk[1])), int(flag)))
    return out


def run(case, rec):
    spec = case["spec"]
    m = mods.read(spec)
    names = spec["vars"]
    bound = 0
    for seq in case["seqs"]:
        ref = Ref(spec, seq["par"])
        if not usable(ref):
            continue
        kw = {}
        if seq["lk"]:
            kw = {"l_max": seq["lk"][0], "k_max": seq["lk"][1]}
        with must_work("set_par on a determinate model"):
            mods.setp(m, seq["par"], **kw)
        with must_work("simulating"):
            out = drive(m, spec, seq, case["how"])
        xr = np.zeros(ref.n)
        for t, (x, (l, k), flag) in enumerate(out):
            e = np.array([seq["rows"][t].get(s, 0.0) for s in ref.shocks])
            expect(l >= 0 and k >= 0, "period %d: negative durations %s" % (t, (l, k)))
            if k == 0:
                expect(l == 0 or flag, "period %d: (l, k) = %s" % (t, (l, k)))
                l = 0
            if big(ref, l, k):
                rec.label("stiff")
                break
            hor = 3
            prom, every, scale, X, S = ref.checks(xr, e, l, k, hor)
            got = mods.pick(m, x, names)
            expect_close(
                got,
                ref.byname(X[0], names),
                "period %d: state under (l, k) = %s" % (t, (l, k)),
                rtol=1e-6,
                scale=scale,
            )
            if not flag:
                if np.any(prom < -TOL * scale):
                    raise Violation(
                        "period %d: (l, k) = %s is no equilibrium; slacks %s"
                        % (t, (l, k), np.round(prom, 9).tolist())
                    )
                r = got[names.index(spec["cvar"])]
                if r < ref.x_bar - TOL * scale:
                    raise Violation(
                        "period %d: the constrained variable is at %r, below the bound %r"
                        % (t, r, ref.x_bar)
                    )
                if l == 0 and k > 0:
                    expect_close(r, ref.x_bar, "period %d: the bound variable" % t, scale=scale)
                if k:
                    bound += 1
                    rec.label("l=%d" % min(l, 4))
                    rec.label("k=%s" % (k if k < 4 else "4-8" if k < 9 else "9+"))
            else:
                rec.label("flag %d" % flag)
            xr = X[0]
    return "binding" if bound else False


def warm():
    from checks.C01 import warm as w

    w()


PARTS = [
    Part(
        "paths",
        lambda: case(),
        run,
        "random models, parameters and shock sequences from the steady state, driven through t_func, simulate and irfs; non-trivial: the constraint binds (now or in expectation) in at least one unflagged period",
        quick=1000,
    ),
]
