"""Models given as matrices behave as the equations they stand for."""
import copy

import hypothesis.strategies as st
import numpy as np
import pandas as pd

from vlib import mods, cases
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.gauss import Joint
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, big, TOL
from checks.C12 import warm  # noqa
from checks.C12 import lin_model, data_of

ASSUMPTIONS = [
    "matrices of determinate models with a unique interpretation: AA x(+1) + BB x + CC x(-1) + DD e = 0 and fb x + fc x(-1) + fd e = 0 for the constrained variable",
    "periods that are within 1e-6 of a tie between regimes are not judged",
]


@st.composite
def case(draw):
    specs = [draw(lin_model()) if draw(st.booleans()) else draw(cases.model())]
    jobs = []
    for _ in range(draw(st.integers(1, 6))):
        spec = specs[0]
        q = len(spec["obs"])
        jobs.append(
            {
                "par": draw(cases.params(spec)) if draw(st.integers(0, 2)) else {},
                "lk": draw(st.sampled_from([None, None, [2, 10], [3, 12], [1, 5]])),
                "obs": draw(st.integers(0, 3)) > 0,
                "force": draw(st.integers(0, 4)) == 0,
                "perm": draw(st.randoms(use_true_random=False)).randint(0, 10**6),
                "scale": draw(st.sampled_from([1.0, -1.0, 2.0])),
                "rows": draw(cases.shock_rows(spec, 1, 5, top=draw(st.sampled_from([200, 600])))),
                "again": draw(st.booleans()),
                "nofd": draw(st.booleans()),
                "data": draw(data_of(q, 2, 6)) if q == len(spec["shocks"]) and q > 1 else None,
                "same": draw(st.integers(0, 3)) == 0,
                "copyof": draw(st.integers(0, 3)),
            }
        )
    return {"spec": specs[0], "jobs": jobs}


def as_dict(ref, j):
    """The matrices in some order of equations and variables."""
    rng = np.random.RandomState(j["perm"])
    n = ref.n
    pv, pe = rng.permutation(n), rng.permutation(n - 1)
    names = np.array([x.replace("#", "aux_") for x in ref.names])[pv]
    fb = ref.rb.copy()
    fb[ref.c] = -1.0
    sh = rng.permutation(ref.m)
    d = {
        "vars": names,
        "shocks": [ref.shocks[i] for i in sh],
        "const_var": ref.spec["cvar"],
        "AA": ref.A[pe][:, pv].copy(),
        "BB": ref.B[pe][:, pv].copy(),
        "CC": ref.C[pe][:, pv].copy(),
        "DD": ref.D[pe][:, sh].copy(),
        "fb": fb[pv] * j["scale"],
        "fc": ref.rc[pv] * j["scale"],
        "x_bar": float(ref.x_bar),
    }
    fd = ref.rd[sh] * j["scale"]
    if np.any(fd) or not j["nofd"]:
        d["fd"] = fd
    if j["obs"]:
        d["observables"] = [o[0] for o in ref.spec["obs"]]
        d["ZZ0"] = ref.H[:, pv].copy()
        d["ZZ1"] = ref.h.copy()
        d["QQ"] = np.diag(ref.sig[sh])
    return d


def same(a, b):
    if set(a) - {"l_max", "k_max"} != set(b) - {"l_max", "k_max"}:
        return False
    return all(np.array_equal(a[k], b[k]) for k in b if k not in ("l_max", "k_max", "data", "obs"))


def run(c, rec):
    from pydsge import gen_sys_from_dict

    spec = c["spec"]
    hit = 0
    dicts = []
    for j in c["jobs"]:
        if j["same"] and dicts:
            # one of those from before, again
            ref, d, j0 = dicts[j["copyof"] % len(dicts)]
            d = copy.deepcopy(d)
            j = dict(j, obs=j0["obs"])
            rec.label("given again")
        else:
            ref = Ref(spec, j["par"])
            if not usable(ref):
                continue
            d = as_dict(ref, j)
        dicts.append((ref, copy.deepcopy(d), j))
        keep = copy.deepcopy(d)
        kw = {}
        if j["lk"]:
            kw = {"l_max": j["lk"][0], "k_max": j["lk"][1]}
        with must_work("gen_sys_from_dict"):
            m = gen_sys_from_dict(d, force_processing=j["force"], parallel=False, verbose=False, **kw)
        for k_ in keep:
            expect(np.array_equal(d[k_], keep[k_]), "gen_sys_from_dict changed `%s`" % k_)
        vs = spec["vars"]
        expect(set(vs) <= set(m.vv), "variables %s, given %s" % (list(m.vv), vs))
        lmax, kmax = j["lk"] or (2, 17)
        x, y = mods.zero(m), np.zeros(ref.n)
        ix = [list(m.vv).index(v) for v in vs]
        jx = [ref.ix[v] for v in vs]
        X = []
        for r in j["rows"]:
            e = np.zeros(ref.m)
            for z, v in r.items():
                e[ref.sx[z]] = v
            with must_work("t_func"):
                x1, (l, k), f = m.t_func(x, mods.shockvec(m, r), return_k=True)
                xl = m.t_func(x, mods.shockvec(m, r), linear=True)[0]
            expect_close(xl[ix], ref.step(y, e, 0, 0)[jx], "linear transition", rtol=1e-6, scale=1 + np.max(np.abs(y)))
            expect(l <= max(lmax, 2) + 1 and k <= kmax, "durations (%s, %s) exceed the limits %s" % (l, k, (lmax, kmax)))
            lr = l if k else 0
            if big(ref, lr, k):
                break
            if not f:
                p, every, scale, XX, S = ref.checks(y, e, lr, k, 3)
                if np.any(p < -TOL * scale):
                    raise Violation("(l, k) = %s is no equilibrium (%s)" % ((l, k), p.tolist()))
            y = ref.step(y, e, lr, k)
            sc = 1 + np.max(np.abs(y))
            if sc > 1e4:
                break
            expect_close(x1[ix], y[jx], "transition", rtol=1e-6, scale=sc)
            x = x1
            X.append(x1)
            if k:
                rec.label("binding")
            if j["obs"]:
                with must_work("obs"):
                    o = m.obs(x)
                expect_close(np.asarray(o).reshape(-1), ref.H @ y + ref.h, "observables", rtol=1e-6, scale=sc)
            hit += 1
        # responses
        z = spec["shocks"][0]
        with must_work("irfs"):
            ir = m.irfs((z, 0.5, 0), T=4, linear=True)[0]
        y2 = np.zeros(ref.n)
        for t in range(4):
            e = np.zeros(ref.m)
            e[ref.sx[z]] = 0.5 * (t == 0)
            y2 = ref.step(y2, e, 0, 0)
            expect_close(ir[vs].to_numpy()[t], y2[jx], "responses", rtol=1e-6, scale=1 + np.max(np.abs(y2)))
        if j["obs"] and j["data"] is not None:
            names = [o[0] for o in spec["obs"]]
            q = len(names)
            Y = np.array(j["data"])
            try:
                J = Joint(ref, list(m.observables), 0.25 * np.eye(q), len(Y))
                if J.cond() > 1e9:
                    continue
                want = J.ll(Y[:, [names.index(o) for o in m.observables]])
            except (np.linalg.LinAlgError, ArithmeticError):
                continue
            with must_work("likelihood of a model given by matrices"):
                m.load_data(pd.DataFrame(Y, columns=names))
                m.create_filter(R=0.25 * np.eye(q), ftype="KF")
                got = m.get_ll()
            if not abs(got - want) <= 1e-6 * (1 + abs(want)) + 1e-9 * J.cond():
                raise Violation("log-likelihood %r, density of the data %r" % (got, want))
            rec.label("likelihood")
    return "matrices" if hit else False


PARTS = [
    Part(
        "matrices",
        case,
        run,
        "1-6 sets of matrices of a random model (equations, variables and shocks in any order, constraint in any scale, with and without observables), new or given before, with own search limits; 1-5 periods of shocks each; non-trivial: a period compared with the reference",
        quick=1200,
        cap=40,
    ),
]
