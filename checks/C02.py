"""Determinacy: exactly the parametrisations with one stable solution are accepted."""
import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref

ASSUMPTIONS = [
    "parametrisations with a root within 1e-3 of the unit circle, a rank failure or an undefined root are skipped as too close to call",
]


@st.composite
def free_spec(draw):
    """Every coefficient is a parameter of its own, so that roots can go
    anywhere: unique, many or no stable solutions."""
    n = draw(st.integers(1, 3))
    vs = ["y", "c", "Pi"][:n]
    par = []
    eqs = []
    cnt = [0]

    def coef(v):
        name = "c%d" % cnt[0]
        cnt[0] += 1
        par.append([name, v])
        return ["p", name]

    for i, v in enumerate(vs):
        k = draw(st.integers(1, 3))
        cand = draw(
            st.lists(
                st.tuples(
                    st.sampled_from(vs + ["r", "z"]), st.sampled_from([0, 1, 1, -1, -1, 2])
                ),
                min_size=k,
                max_size=k,
                unique=True,
            )
        )
        cand = [c for c in cand if c != (v, 0)]
        if i == 0:
            cand = [c for c in cand if c not in (("r", 0), (v, 1))] + [("r", 0), (v, 1)]
        if ("z", 0) not in cand:
            cand.append(("z", 0))
        eqs.append({"lhs": v, "terms": [[coef(0.3), s, d] for s, d in cand]})
    eqs.append({"lhs": "z", "terms": [[coef(0.5), "z", -1], [["c", 1], "e_z", 0]]})
    con = [[coef(0.5), draw(st.sampled_from(vs)), 0]]
    if draw(st.booleans()):
        con.append([coef(0.5), draw(st.sampled_from(vs + ["r"])), -1])
    par.append(["x_bar", draw(st.sampled_from([-1, -0.1, -2, -0.5, 0, -5]))])
    par.append(["sig_z", draw(st.sampled_from([1.0, 0.0, 0.1]))])
    return {
        "name": "free",
        "vars": list(draw(st.permutations(vs + ["r", "z"]))),
        "cvar": "r",
        "shocks": ["e_z"],
        "params": par,
        "funcs": [],
        "ufuncs": 0,
        "eqs": eqs,
        "con": con,
        "obs": [["OBS", [[["c", 1], vs[0]]], ["c", 0]]],
        "sigs": {"e_z": "sig_z"},
        "prior": None,
    }


@st.composite
def case(draw, fam):
    if fam == "nk":
        spec = draw(mg.nk_spec())
        rng = dict(cases.RANGE)
        rng["phi_pi"] = (0.0, 2.5)
        rng["rho_u"] = (0.1, 1.25)
        pars = []
        for _ in range(draw(st.integers(2, 10))):
            p = {}
            for n, (lo, hi) in rng.items():
                if draw(st.integers(0, 2)) == 0 or n == "phi_pi":
                    p[n] = round(lo + (hi - lo) * draw(st.integers(0, 100)) / 100.0, 6)
            pars.append(p)
    else:
        spec = draw(free_spec())
        names = [n for n, _ in spec["params"] if n[0] == "c" and n[1:].isdigit()]
        pars = []
        for _ in range(draw(st.integers(2, 16))):
            big = draw(st.sampled_from([60, 110, 160]))
            p = {}
            for n in names:
                v = draw(st.integers(-big, big)) / 100.0
                p[n] = v if v else 0.05
            pars.append(p)
    return {"spec": spec, "pars": pars, "batch": draw(st.booleans())}


def verdict(spec, par):
    ref = Ref(spec, par)
    M = np.abs(ref.Bu).sum() + np.abs(ref.Au).sum()
    cl = ref.classify(margin=1e-3)
    if cl == "det":
        try:
            P, _ = ref.linear()
        except (ArithmeticError, np.linalg.LinAlgError):
            return "edge"
        if np.max(np.abs(P)) > 1e4:
            return "edge"
    return cl


def run(case, rec):
    spec = case["spec"]
    m = mods.read(spec)
    seen = set()
    first = True
    vv0 = None
    good = None
    for par in case["pars"]:
        cl = verdict(spec, par)
        if cl == "edge":
            rec.label("edge")
            continue
        v = [float(x) for x in m.par_fix]
        for k, x in par.items():
            v[m.par_names.index(k)] = x
        if good is not None:
            e = np.full(len(m.shocks), 0.1)
            before = np.array(m.t_func(mods.zero(m), e)[0]), list(m.vv)
        try:
            with quiet():
                m.set_par(v)
            ok = True
        except ValueError:
            ok = False
        except Exception as e:  # noqa
            raise Violation(
                "set_par on %s parameters raised %s: %s" % (cl, type(e).__name__, e)
            )
        rec.label(cl)
        seen.add(cl)
        if cl == "det":
            expect(ok, "a determinate parametrisation was rejected: %r" % (par,))
            good = v
        else:
            expect(not ok, "a parametrisation with %s was accepted: %r" % (
                {"indet": "many stable solutions", "expl": "no stable solution"}[cl], par))
            if good is not None:
                # and the model is still what it was
                with must_work("using a model after a refused parametrisation"):
                    got = m.get_par()
                    x = np.array(m.t_func(mods.zero(m), e)[0])
                expect(np.array_equal(np.asarray(got, float), np.asarray(good, float)), "after a refused parametrisation, get_par gives %s instead of %s" % (got, good))
                expect(list(m.vv) == before[1] and np.allclose(x, before[0], rtol=1e-9, atol=1e-12), "after a refused parametrisation, the transition has changed")
                rec.label("refused after accepted")
    if good is not None and case["batch"] and "indet" in seen | {"expl"} and len(seen) > 1:
        # in a batch, the rejected ones are marked and the others are unaffected
        m.set_par(good)
        rows, want = [], []
        for par in case["pars"]:
            cl = verdict(spec, par)
            if cl == "edge":
                continue
            v = [float(x) for x in m.par_fix]
            for k, x in par.items():
                v[m.par_names.index(k)] = x
            rows.append(v)
            want.append(cl == "det")
        with must_work("irfs for several parametrisations"):
            X, lk, flag = m.irfs((spec["shocks"][0], 0.5, 0), np.array(rows), T=4, linear=True, verbose=False)
        X = np.asarray(X)
        expect(X.shape[0] == len(rows), "irfs returned %s" % (X.shape,))
        for i, w in enumerate(want):
            nan = np.isnan(X[i])
            if w:
                expect(not nan.any(), "irfs: a determinate draw came out as NaN")
            else:
                expect(nan.all(), "irfs: a draw without unique stable solution has responses")
        rec.label("batch")
    return "+".join(sorted(seen)) if len(seen) > 1 else bool(seen)


from checks.C01 import warm  # noqa

PARTS = [
    Part(
        "free",
        lambda: case("free"),
        run,
        "random linear models in which every coefficient is a parameter, 2-16 random parameter vectors each; non-trivial: at least one vector classified as unique, many or no stable solutions by an independent root count",
        quick=640,
    ),
    Part(
        "new-keynesian",
        lambda: case("nk"),
        run,
        "New-Keynesian models around the Taylor principle (policy response 0 to 2.5) and with explosive shock processes; same rule",
        quick=160,
    ),
]
