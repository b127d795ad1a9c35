"""The text of a model file means what it says, however it is laid out."""
import copy

import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, warm  # noqa

ASSUMPTIONS = ["coefficients smaller than 1e-8 are treated as zero by the package and are not generated"]


@st.composite
def case(draw):
    spec = draw(cases.model(("gen", "gen", "nk"), max_shocks=draw(st.sampled_from([3, 3, 5]))))
    n = len(spec["eqs"])
    return {
        "spec": spec,
        "style1": draw(mg.style()),
        "style2": draw(mg.style()),
        "vars": list(draw(st.permutations(spec["vars"]))),
        "eqs": list(draw(st.permutations(list(range(n))))),
        "funcs": list(draw(st.permutations(list(range(len(spec["funcs"])))))),
        "params": list(draw(st.permutations(list(range(len(spec["params"])))))),
        "par": draw(cases.params(spec)),
        "rows": draw(cases.shock_rows(spec, 2, 4, top=300)),
    }


def run(case, rec):
    spec = case["spec"]
    ref = Ref(spec, case["par"])
    if not usable(ref):
        return "skip"
    other = copy.deepcopy(spec)
    other["vars"] = case["vars"]
    other["eqs"] = [spec["eqs"][i] for i in case["eqs"]]
    other["funcs"] = [spec["funcs"][i] for i in case["funcs"]]
    other["params"] = [spec["params"][i] for i in case["params"]]
    names = spec["vars"]
    res = []
    P, Q = ref.linear()
    for sp, sty in ((spec, case["style1"]), (other, case["style2"])):
        m = mods.read(sp, sty)
        expect(list(m.par_names) == [n for n, _ in sp["params"]], "parameters are not those of the file, in its order: %s" % (m.par_names,))
        expect([str(s) for s in m.shocks] == list(sp["shocks"]), "shocks are not those of the file, in its order: %s" % (m.shocks,))
        expect([str(o) for o in m.observables] == [o[0] for o in sp["obs"]], "observables are not those of the file, in its order: %s" % (m.observables,))
        expect(str(m.const_var) == sp["cvar"], "constrained variable %s" % m.const_var)
        expect(m.neps == len(sp["shocks"]) and m.nobs == len(sp["obs"]), "neps, nobs = %s, %s" % (m.neps, m.nobs))
        with must_work("set_par"):
            calib = Ref(sp)
            if usable(calib):
                # the calibration is what the file says
                m.set_par("calib") if False else mods.setp(m, {})
                for n, v in sp["params"]:
                    expect_close(m.get_par(n), v, "calibrated value of %s" % n)
                for n, _ in sp["funcs"]:
                    expect_close(m.get_par(n), calib.env[n], "value of the parameter function %s" % n, rtol=1e-9)
            mods.setp(m, case["par"])
        for n, _ in sp["funcs"]:
            with must_work("get_par of a parameter function"):
                v = m.get_par(n)
            expect_close(v, ref.env[n], "value of the parameter function %s" % n, rtol=1e-9)
        with must_work("get_cov"):
            cov = np.asarray(m.get_cov(), float)
        expect_close(cov, np.diag([ref.env[sp["sigs"][s]] for s in sp["shocks"]]), "shock scales")
        missing = [v for v in names if v not in list(m.vv)]
        expect(not missing, "variables %s are missing from the solved model" % missing)
        x = mods.zero(m)
        y = mods.zero(m)
        X, Y, O, LK = [], [], [], []
        for row in case["rows"]:
            e = mods.shockvec(m, row)
            with must_work("t_func"):
                x, lk, flag = m.t_func(x, e, return_k=True)
                y, _ = m.t_func(y, e, linear=True)
                o = np.asarray(m.obs(np.vstack((y, y))))[0]
            X.append(mods.pick(m, x, names))
            Y.append(mods.pick(m, y, names))
            O.append(o)
            LK.append((int(lk[0]), int(lk[1]), int(flag)))
        res.append((np.array(X), np.array(Y), np.array(O), LK))
    # against the meaning of the equations
    xr = np.zeros(ref.n)
    YR = []
    for row in case["rows"]:
        xr = P @ xr + Q @ np.array([row.get(s, 0.0) for s in ref.shocks])
        YR.append(xr)
    YR = np.array(YR)
    scale = 1 + np.max(np.abs(YR))
    for i, (X, Y, O, LK) in enumerate(res):
        expect_close(Y, np.array([ref.byname(v, names) for v in YR]), "responses of layout %d" % (i + 1), rtol=1e-6, scale=scale)
        expect_close(O, YR @ ref.H.T + ref.h, "observables of layout %d" % (i + 1), rtol=1e-6, scale=scale + np.max(np.abs(ref.h)))
    # and against each other, constraint included
    if not any(f for *_, f in res[0][3] + res[1][3]):
        if res[0][3] == res[1][3]:
            sc = 1 + np.max(np.abs(res[0][0]))
            expect_close(res[0][0], res[1][0], "the two layouts of one model", rtol=1e-5, scale=sc)
        else:
            rec.label("regimes differ")
    return "funcs" if spec["funcs"] else "plain"


PARTS = [
    Part(
        "layouts",
        case,
        run,
        "a random model written out twice with different layout (list markers, power signs, semicolons, line continuation, comments, sides of the equality, order of variables, equations, parameters and parameter functions); non-trivial: determinate",
        quick=640,
    ),
]
