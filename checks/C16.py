"""Draws from the prior, and the parameter sets that the prior section declares."""
import math

import hypothesis.strategies as st
import numpy as np
import scipy.special as sp

from vlib import dens, mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable
from checks.C12 import warm  # noqa
from checks.C12 import lin_model, data_of, frame

ASSUMPTIONS = [
    "fewer priors than parameters (with a prior for every parameter, a vector of draws is read as a full parameter vector)",
    "the distribution of draws is judged with a Kolmogorov-Smirnov distance of 3.2/sqrt(n) (probability below 1e-8 for draws from the prior)",
]


@st.composite
def case(draw):
    wide = draw(st.booleans())
    spec = draw(cases.model(("gen", "nk"))) if wide else draw(lin_model())
    spec = draw(cases.with_prior(spec, hi=6))
    if draw(st.integers(0, 2)) == 0:
        # draws that have no solution
        for n in spec["prior"]:
            if n == "phi_pi":
                spec["prior"][n] = ["normal", 1.0, 0.3]
    if draw(st.integers(0, 3)):
        # draws of this family are slow
        for n, p in spec["prior"].items():
            if p[-3] == "inv_gamma_dynare":
                p[-3] = "inv_gamma"
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append(
            [
                draw(st.sampled_from(["plain", "solve", "ll", "get_par", "sets", "trans"])),
                draw(st.integers(1, 8)),
                draw(st.integers(0, 2**31 - 1)),
                draw(st.booleans()),
            ]
        )
    return {"spec": spec, "ops": ops, "prep": draw(st.booleans()), "data": draw(data_of(len(spec["obs"]), 2, 5)), "mode": draw(st.booleans()), "z": [draw(st.integers(-300, 300)) / 100.0 for _ in range(12)]}


def ks(kind, m, s, xs):
    """Distance of the draws from the distribution."""
    xs = np.sort(xs)
    if kind == "normal":
        u = sp.ndtr((xs - m) / s)
    elif kind == "uniform":
        u = np.clip((xs - m) / (s - m), 0, 1)
    elif kind == "gamma":
        u = sp.gammainc(m * m / s / s, xs * m / s / s)
    elif kind == "beta":
        k = m * (1 - m) / s / s - 1
        u = sp.betainc(m * k, (1 - m) * k, xs)
    elif kind == "inv_gamma":
        a = 2 + m * m / s / s
        u = sp.gammaincc(a, m * (a - 1) / xs)
    else:
        S, nu = dens.dyn(m, s)
        u = sp.gammaincc(nu / 2, S / 2 / xs / xs)
    n = len(xs)
    i = np.arange(n)
    return max(np.max((i + 1) / n - u), np.max(u - i / n))


def run(c, rec):
    spec = c["spec"]
    prior = spec["prior"]
    names = list(prior)
    kinds = [p[-3] for p in prior.values()]
    m = mods.read(spec)
    mean = {n: (0.5 * (p[-2] + p[-1]) if p[-3] == "uniform" else p[-2]) for n, p in prior.items()}
    calib = dict(map(tuple, spec["params"]))
    adj = {n: (mean[n] * 10 if p[-3] == "inv_gamma_dynare" else mean[n]) for n, p in prior.items()}
    init = {n: (calib[n] if len(p) == 3 or str(p[0]) == "None" else float(p[0])) for n, p in prior.items()}
    est = len(spec["obs"]) == len(spec["shocks"]) and len(spec["obs"]) > 1
    ready = False
    with quiet():
        try:
            m.set_par("calib")
        except ValueError:
            return False
    if c["prep"] and est:
        try:
            ok = usable(Ref(spec, mean))
        except (ArithmeticError, ValueError, OverflowError, np.linalg.LinAlgError):
            ok = False
        if not ok:
            return False
        with must_work("prep_estim"):
            m.load_data(frame(spec, c["data"], range(len(spec["obs"]))))
            m.prep_estim(linear=True, dry_run=False, debug=True, verbose=False, use_prior_transform=c["mode"])
        ready = True
    hit = 0
    for op, n, seed, flag in c["ops"]:
        if op in ("plain", "solve", "ll"):
            if op == "ll" and not ready:
                op = "solve"
            kw = {"try_parameter": op == "solve", "check_likelihood": op == "ll"}
            np.random.seed(1)
            try:
                with quiet():
                    d1 = np.array(m.prior_sampler(n, seed=seed, verbose=False, **kw))
                    np.random.seed(2)
                    d2 = np.array(m.prior_sampler(n, seed=seed, verbose=False, **kw))
            except Exception as e:
                if op == "plain" or "unsuccessful" not in str(e):
                    raise Violation("sampling from the prior raised %r" % (e,))
                rec.label("gave up")
                continue
            expect(d1.shape == (n, len(names)), "%s draws of %d parameters, asked for %d of %d" % (d1.shape + (n, len(names))))
            expect(np.array_equal(d1, d2), "the same seed gave other draws")
            expect(len({tuple(r) for r in d1.tolist()}) == n, "draws repeat themselves")
            for v in d1.tolist():
                expect(np.isfinite(dens.lprior(prior, v)), "draw %s has no prior density" % (v,))
                if op == "plain":
                    continue
                try:
                    reg = Ref(spec, dict(zip(names, v))).classify()
                except (ArithmeticError, ValueError, OverflowError, np.linalg.LinAlgError):
                    continue
                expect(reg not in ("indet", "expl"), "draw %s has no solution (%s)" % (v, reg))
                if op == "ll":
                    with quiet():
                        f = m.lprob(np.array(v), verbose=False, use_prior_transform=False)
                    expect(np.isfinite(f), "draw %s has no likelihood" % (v,))
            if op == "plain":
                # other seeds, other draws; and their distribution
                with must_work("prior_sampler"):
                    big = 25 if "inv_gamma_dynare" in kinds else 200
                    d3 = np.array(m.prior_sampler(big, seed=seed + 1 if seed < 2**31 - 1 else 0, try_parameter=False, verbose=False))
                for j, k in enumerate(kinds):
                    dist = ks(k, prior[names[j]][-2], prior[names[j]][-1], d3[:, j])
                    expect(dist < 3.2 / math.sqrt(big), "draws of %s are not from its prior %s (distance %.3f)" % (names[j], prior[names[j]][-3:], dist))
            rec.label(op)
            hit += 1
        elif op == "get_par":
            np.random.seed(seed)
            try:
                with quiet():
                    d = np.array(m.get_par("prior", nsamples=n, full=flag, seed=seed))
                    p = np.array(m.prior_sampler(n, seed=seed, verbose=False))
            except Exception as e:
                if "unsuccessful" not in str(e):
                    raise Violation("get_par('prior') raised %r" % (e,))
                continue
            if flag:
                expect(d.shape == (n, len(calib)), "get_par('prior'): shape %s" % (d.shape,))
                want = np.tile([float(calib[z]) for z, _ in spec["params"]], (n, 1))
                want[:, [[z for z, _ in spec["params"]].index(z) for z in names]] = p
                expect_close(d, want, "get_par('prior')", rtol=1e-12)
            else:
                expect_close(d, p, "get_par('prior', full=False)", rtol=1e-12)
            rec.label(op)
            hit += 1
        elif op == "sets":
            sets = {"calib": {z: float(calib[z]) for z in names}, "prior_mean": mean, "adj_prior_mean": adj}
            if ready:
                sets["init"] = init
                if "mode_x" not in m.fdict:
                    sets["best"] = init
            for s, want in sets.items():
                with must_work("get_par(%r)" % s):
                    v = m.get_par(s, full=False)
                    a = m.get_par(s, full=False, asdict=True)
                    f = m.get_par(s)
                expect_close(v, [want[z] for z in names], "get_par(%r)" % s, rtol=1e-12)
                expect(list(a) == [z for z in a] and all(abs(a[z] - want[z]) <= 1.1e-5 for z in names), "get_par(%r, asdict=True): %s" % (s, a))
                expect_close(f, [want.get(z, calib[z]) for z, _ in spec["params"]], "get_par(%r), all parameters" % s, rtol=1e-12)
                if n > 1:
                    with must_work("get_par(%r, nsamples)" % s):
                        w = np.array(m.get_par(s, full=False, nsamples=n))
                    expect(w.shape == (n, len(names)), "get_par(%r, nsamples=%d): shape %s" % (s, n, w.shape))
                    expect(np.all(np.abs(w - np.array([want[z] for z in names])) <= 0.01 * np.abs([want[z] for z in names]) + 1e-12), "get_par(%r, nsamples=%d) is not close to the set" % (s, n))
            rec.label(op)
            hit += 1
        elif op == "trans" and ready and c["mode"]:
            z = np.array([c["z"][(i + seed) % 12] for i in range(n * len(names))]).reshape(n, len(names))
            for arr in (z, z[0], z[None]):
                k0 = arr.copy()
                with must_work("transformation"):
                    x = np.asarray(m.bptrans(arr))
                    back = np.asarray(m.bptrans(x, sampler_to_prior=False))
                expect(np.array_equal(arr, k0), "the transformation changed its input")
                want = np.vectorize(lambda v, j: dens.forward(kinds[j], v))(arr, np.broadcast_to(np.arange(len(names)), arr.shape))
                expect_close(x, want, "transformation to parameter values", rtol=1e-10)
                expect_close(back, arr, "transformation there and back", rtol=1e-8)
            rec.label(op)
            hit += 1
    if ready:
        lb, ub = m.fdict["prior_bounds"]
        expect(list(lb) == [p[1] if len(p) == 6 else None for p in prior.values()] and list(ub) == [p[2] if len(p) == 6 else None for p in prior.values()], "bounds of the priors %s" % ((lb, ub),))
    return "prior" if hit else False


PARTS = [
    Part(
        "prior",
        case,
        run,
        "random models with a prior section (six families, either notation), 1-4 requests: draws (plain, with a solution, with a likelihood, through get_par), named sets, transformation; non-trivial: a request that was answered",
        quick=320,
        cap=40,
    ),
]
