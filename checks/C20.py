"""What is reported about an estimation is what was sampled."""
import copy
import os
import warnings

import hypothesis.strategies as st
import numpy as np
import pandas as pd

from vlib import dens, mods, cases
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable
from checks.C12 import warm  # noqa
from checks.C12 import lin_model, data_of, frame

ASSUMPTIONS = [
    "serial execution (see C22 for process pools), linear filter",
    "the moves of the sampler are those of emcee and dime_sampler, which are trusted to report acceptances",
    "tempered runs leave the stored mode as it was, as in the code",
]


@st.composite
def case(draw):
    spec = draw(lin_model())
    spec = draw(cases.with_prior(spec, hi=3))
    for n, p in spec["prior"].items():
        if p[-3] == "inv_gamma_dynare":
            # draws of this family are slow
            p[-3] = "inv_gamma"
    q = len(spec["obs"])
    runs = []
    for i in range(draw(st.integers(1, 3))):
        nsteps = draw(st.integers(1, 8))
        runs.append(
            {
                "how": draw(st.sampled_from(["new", "new", "resume", "append", "nop0"])) if i else draw(st.sampled_from(["new", "new", "new", "nop0"])),
                "nsteps": nsteps,
                "tune": draw(st.one_of(st.none(), st.integers(1, nsteps))) if nsteps >= 5 else draw(st.integers(1, nsteps)),
                "seed": draw(st.one_of(st.none(), st.integers(0, 1000))),
                "temp": draw(st.sampled_from([False, False, False, 1, 0.5])),
                "move": draw(st.sampled_from(["default", "stretch", "walk"])),
                "p0": draw(st.integers(0, 1000)),
                "ask": draw(st.lists(st.sampled_from(["mean", "draws", "csv", "mdd", "summary", "sample", "info", "save", "again"]), min_size=2, max_size=5, unique=True)),
            }
        )
    return {
        "spec": spec,
        "data": draw(data_of(q, 2, 4)),
        "perm": draw(st.permutations(range(q))),
        "trans": draw(st.booleans()),
        "nw": draw(st.integers(4, 7)) * 2,
        "seed": draw(st.integers(0, 100)),
        "backend": draw(st.sampled_from(["default", "default", "file", "none", "suffix"])),
        "runs": runs,
        "size": draw(st.integers(1, 6)),
    }


def moves(kind):
    import emcee

    return {"default": None, "stretch": emcee.moves.StretchMove(), "walk": emcee.moves.WalkMove()}[kind]


def run(c, rec):
    with mods.Folder() as d:
        return run_in(c, rec, d)


def run_in(c, rec, d):
    from pydsge import DSGE

    spec = c["spec"]
    prior = spec["prior"]
    names = list(prior)
    m = mods.read(spec)
    m.path = d
    m.name = "run"
    mean = {n: (0.5 * (p[-2] + p[-1]) if p[-3] == "uniform" else p[-2]) for n, p in prior.items()}
    init = {n: (dict(map(tuple, spec["params"]))[n] if len(p) == 3 or str(p[0]) == "None" else float(p[0])) for n, p in prior.items()}
    try:
        if not usable(Ref(spec, mean)) or not usable(Ref(spec, init)):
            return False
    except (ArithmeticError, ValueError, OverflowError, np.linalg.LinAlgError):
        return False
    ndim = len(names)
    nw = max(c["nw"], 2 * ndim)
    with must_work("prep_estim"):
        m.load_data(frame(spec, c["data"], c["perm"]))
        m.prep_estim(linear=True, dry_run=False, debug=True, verbose=False, seed=c["seed"], use_prior_transform=c["trans"])
    lp = m.lprob
    kinds = [p[-3] for p in prior.values()]
    full0 = np.array(m.par_fix, float)
    pix = [[n for n, _ in spec["params"]].index(n) for n in names]
    hist = None  # the chain so far, in parameter values
    hits = 0
    for r in c["runs"]:
        how = r["how"]
        if how in ("resume", "append") and (hist is None or c["backend"] == "none"):
            how = "new"
        kw = {"nsteps": r["nsteps"], "moves": moves(r["move"]), "seed": r["seed"], "verbose": False}
        if r["tune"] is not None:
            kw["tune"] = r["tune"]
        if r["temp"] is not False:
            kw["temp"] = r["temp"]
        temp = 1 if r["temp"] is False else r["temp"]
        file = None
        if c["backend"] == "file":
            file = os.path.join(d, "mine.h5")
            kw["backend"] = file
        elif c["backend"] == "none":
            kw["backend"] = False
        elif c["backend"] == "suffix":
            kw["suffix"] = "_other.h5"
            file = os.path.join(d, "run_other.h5")
        else:
            file = os.path.join(d, "run_sampler.h5")
        p0 = None
        old_mode = (copy.deepcopy(m.fdict.get("mode_x")), m.fdict.get("mode_f"))
        if how in ("new", "append"):
            try:
                with quiet():
                    p0 = np.array(m.prior_sampler(nw, seed=r["p0"], verbose=False, check_likelihood=True))
            except Exception as e:  # noqa
                if "unsuccessful" in str(e):
                    return "few" if hits else False
                raise
            kw["p0"] = p0.copy()
            if how == "append":
                kw["append"] = True
        elif how == "resume":
            kw["resume"] = True
        else:
            kw["nwalks"] = nw
            with quiet():
                base = np.array(m.get_par("prior_mean" if temp < 1 else "best", full=False), float)
                if not np.isfinite(lp(base, use_prior_transform=False, verbose=False)):
                    continue
        if how == "new" or how == "nop0" or hist is None:
            before = None
        else:
            before = hist
        start = p0 if p0 is not None else (hist[-1] if how == "resume" else None)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with quiet():
                    m.mcmc(**kw)
            except np.linalg.LinAlgError:
                # nor do its moves
                hist = None
                continue
            except ValueError as e:
                if "initial state" in str(e).lower() or "linearly independent" in str(e):
                    # emcee does not start from degenerate positions
                    rec.label("refused by emcee")
                    hist = None
                    continue
                raise
            except Exception as e:  # noqa
                raise Violation("mcmc(%s) raised %r" % ({k: v for k, v in kw.items() if k != "p0"}, e))
        if p0 is not None:
            expect(np.array_equal(kw["p0"], p0), "mcmc changed the initial ensemble")
        with must_work("get_chain"):
            chain = np.array(m.get_chain())
            lps = np.array(m.get_log_prob())
            acc = np.array(m.get_chain(get_acceptance_fraction=True))
        tot = r["nsteps"] + (0 if before is None else len(before))
        expect(chain.shape == (tot, nw, ndim) and lps.shape == (tot, nw), "chain has shape %s after %d steps of %d walkers" % (chain.shape, tot, nw))
        if before is not None:
            expect_close(chain[: len(before)], before, "earlier steps changed", rtol=1e-9)
        new = chain[-r["nsteps"] :]
        nlp = lps[-r["nsteps"] :]
        # every state of the chain comes with its posterior
        seen = {}
        for i in range(len(new)):
            for j in range(nw):
                key = tuple(new[i, j])
                if key in seen:
                    expect(seen[key] == nlp[i, j], "one parameter vector, two posterior values")
                    continue
                seen[key] = nlp[i, j]
        for key in list(seen)[:: max(1, len(seen) // 12)]:
            with quiet():
                v = lp(np.array(key), use_prior_transform=False, temp=temp, verbose=False)
            tol = 1e-6 * (1 + abs(v))
            if not (abs(v - seen[key]) <= tol or v == seen[key]):
                raise Violation("posterior of %s is %r, the chain says %r" % (key, v, seen[key]))
        # walkers start where they were told to
        if start is not None and before is None:
            pth = np.concatenate((start[None], new))
            moved = np.sum(np.any(np.abs(np.diff(pth, axis=0)) > 1e-9 * np.abs(pth[1:]), axis=-1))
            n_acc = float(np.sum(acc) * tot)
            expect(abs(moved - n_acc) < 0.5, "%d of %d moves were accepted, but walkers moved %d times from the given ensemble" % (round(n_acc), nw * r["nsteps"], moved))
        if how == "nop0":
            off = np.abs(new[0] - base) / (1e-12 + np.abs(base))
            still = np.all(off < 0.006, axis=1)
            frac = float(np.sum(acc))
            if r["nsteps"] == 1 and frac < nw - 0.5:
                expect(still.sum() >= round(nw - frac), "without p0 the walkers do not start around the best known parameters")
        hist = chain
        tune = r["tune"] if r["tune"] is not None else int(r["nsteps"] / 5.0)
        post = chain[-tune:].reshape(-1, ndim)
        plp = lps[-tune:].reshape(-1)
        best = int(np.argmax(plp))
        expect(int(m.get_tune) == tune, "tune is %s, not %s" % (m.get_tune, tune))
        if temp == 1:
            with must_work("mode"):
                mode = np.array(m.get_par("mode", full=False), float)
                mf = float(m.fdict["mode_f"])
                full = np.array(m.get_par("mode"), float)
            expect(mf == plp[best], "the mode has value %r, the best posterior is %r" % (mf, plp[best]))
            expect(np.min(np.max(np.abs(post[plp == plp[best]] - mode), axis=1)) < 1e-9 * (1 + np.max(np.abs(mode))), "the mode %s is not the best state of the chain %s" % (mode, post[best]))
            w = full0.copy()
            w[pix] = mode
            expect_close(full, w, "get_par('mode')", rtol=1e-12)
            with must_work("best"):
                expect_close(m.get_par("best", full=False), mode, "get_par('best')", rtol=1e-12)
            rec.label("mode")
        else:
            expect((old_mode[0] is None) == (m.fdict.get("mode_x") is None), "a tempered run changed the mode")
            rec.label("tempered")
        hits += 1
        rec.label(how)
        if c["trans"]:
            rec.label("transformed")
        for a in r["ask"]:
            if a == "mean":
                with must_work("post_mean"):
                    g = m.get_par("post_mean", full=False)
                    g2 = np.array(m.get_par("posterior_mean"), float)
                expect_close(g, post.mean(axis=0), "posterior mean", rtol=1e-9)
                w = full0.copy()
                w[pix] = post.mean(axis=0)
                expect_close(g2, w, "posterior mean, all parameters", rtol=1e-9)
                from pydsge.stats import post_mean

                with must_work("post_mean"):
                    expect_close(post_mean(m, chain=chain[-1:]), chain[-1].mean(axis=0), "mean of a given chain", rtol=1e-9)
                    expect_close(post_mean(m, tune=1), chain[-1].mean(axis=0), "mean of the last step", rtol=1e-9)
            elif a == "draws":
                k = c["size"]
                with must_work("posterior draws"):
                    g = np.array(m.get_par("posterior", nsamples=k))
                    g1 = np.array(m.get_par("post", nsamples=k))
                    g2 = np.array(m.get_par("posterior", nsamples=k, full=False))
                expect(g.shape == (k, len(full0)), "posterior draws: shape %s" % (g.shape,))
                expect(np.array_equal(g, g1), "posterior draws are not reproducible")
                rest = [i for i in range(len(full0)) if i not in pix]
                expect_close(g[:, rest], np.tile(full0[rest], (k, 1)), "posterior draws: other parameters", rtol=1e-12)
                expect_close(g[:, pix], g2, "posterior draws, estimated parameters", rtol=1e-12)
                for row in g[:, pix]:
                    expect(np.min(np.max(np.abs(post - row), axis=1)) < 1e-12 * (1 + np.max(np.abs(row))), "a posterior draw is not in the last %d steps of the chain" % tune)
            elif a == "csv":
                f = os.path.join(d, "post.csv")
                with must_work("posterior2csv"):
                    m.posterior2csv(path=f)
                    m.posterior2csv()
                for g in (f, os.path.join(d, "run_posterior.csv")):
                    t = pd.read_csv(g, index_col=0)
                    expect(list(t.index) == names, "posterior2csv: rows %s" % list(t.index))
                    expect_close(t.to_numpy(), post.T, "posterior2csv", rtol=1e-9)
            elif a == "mdd":
                if len(post) < 3 * ndim or not np.all(np.isfinite(plp)):
                    continue
                C = np.atleast_2d(np.cov(post.T))
                if np.linalg.cond(C) > 1e8:
                    continue
                want = 0.5 * ndim * np.log(2 * np.pi) + 0.5 * np.linalg.slogdet(C)[1] + np.max(plp)
                if ndim > 1:
                    with must_work("mdd"):
                        got = m.mdd()
                    expect_close(got, want, "marginal data density (laplace)", rtol=1e-6)
                    with must_work("mdd"):
                        got = m.mdd(chain=post[: len(post) // 2 + 2], lprobs=plp[: len(post) // 2 + 2])
                    P2 = post[: len(post) // 2 + 2]
                    C2 = np.atleast_2d(np.cov(P2.T))
                    if np.linalg.cond(C2) < 1e8:
                        want = 0.5 * ndim * np.log(2 * np.pi) + 0.5 * np.linalg.slogdet(C2)[1] + np.max(plp[: len(P2)])
                        expect_close(got, want, "marginal data density of a given chain", rtol=1e-6)
            elif a == "summary":
                with must_work("mcmc_summary"):
                    s = m.mcmc_summary(out=lambda x: None)
                expect(list(s.index) == names, "summary: rows %s" % list(s.index))
                expect_close(s["mean"], post.mean(axis=0), "summary: means", rtol=1e-9)
                expect_close(s["sd"], post.std(axis=0), "summary: standard deviations", rtol=1e-6)
                expect_close(s["mode"], post[best], "summary: mode", rtol=1e-9)
                expect(list(s["distribution"]) == kinds, "summary: priors %s" % list(s["distribution"]))
                lo, hi = s.filter(like="hpd").to_numpy(float).T
                if len(post) > 12:
                    inn = np.mean((post >= lo - 1e-12) & (post <= hi + 1e-12), axis=0)
                    expect(np.all(inn >= 0.9 - 1e-9), "summary: intervals hold %s of the sample" % inn)
            elif a == "sample":
                for ch in (None, chain[:2]):
                    src = chain if ch is None else ch
                    for k in (c["size"], 9 * c["size"]):
                        if k > src.shape[0] * nw:
                            continue
                        with must_work("get_sample"):
                            g = np.array(m.get_sample(k, chain=ch))
                        expect(g.shape == (k, ndim), "get_sample: shape %s" % (g.shape,))
                        pool = src[-int(np.ceil(max(k, 60) / nw)) :].reshape(-1, ndim)
                        for row in g:
                            expect(np.min(np.max(np.abs(pool - row), axis=1)) < 1e-12 * (1 + np.max(np.abs(row))), "get_sample: not from the recent chain")
                        rec.label("sample")
            elif a == "info":
                with must_work("info"):
                    t = m.info(verbose=False)
                expect(("Parameters: %d\n" % ndim) in t and ("Chains: %d\n" % nw) in t and ("Last %d of %d samples" % (tune, tot)) in t, "info: %r" % t)
            elif a == "again" and p0 is not None and how == "new":
                # the same seed from the same ensemble gives the same chain
                k2 = dict(kw, p0=p0.copy(), backend=False, moves=moves(r["move"]))
                k2.pop("suffix", None)
                m2 = copy.deepcopy(m)
                np.random.seed(5)
                with must_work("mcmc"):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        m2.mcmc(**k2)
                    ch2 = np.array(m2.get_chain())
                expect_close(ch2, new, "the same seed gives another chain", rtol=1e-9)
            elif a == "save":
                with must_work("save and load"):
                    m.save(verbose=False)
                    L = DSGE.load(os.path.join(d, "run_meta.npz"))
                    L.debug = True
                    if file:
                        arg = {} if c["backend"] != "suffix" else {"backend_file": file}
                        ch2 = np.array(L.get_chain(**arg))
                        lp2 = np.array(L.get_log_prob(**arg))
                    else:
                        L.load_estim(verbose=False, debug=True)
                    expect(int(L.get_tune) == tune, "tune was lost")
                if file:
                    expect_close(ch2, chain, "chain of the loaded model", rtol=1e-9)
                    expect(np.array_equal(lp2, lps), "posterior values of the loaded model")
                    if c["backend"] != "suffix":
                        with must_work("posterior of the loaded model"):
                            expect_close(L.get_par("post_mean", full=False), post.mean(axis=0), "posterior mean of the loaded model", rtol=1e-9)
                            s = L.mcmc_summary(out=lambda x: None)
                            expect_close(s["mean"], post.mean(axis=0), "summary of the loaded model", rtol=1e-9)
                if m.fdict.get("mode_x") is not None:
                    with must_work("mode of the loaded model"):
                        expect_close(L.get_par("mode", full=False), m.fdict["mode_x"], "mode of the loaded model", rtol=1e-12)
                rec.label("saved")
    return "estimation" if hits else False


PARTS = [
    Part(
        "estimation",
        case,
        run,
        "random models with a prior section and data, 1-3 sampler runs (new, resumed, appended, without initial ensemble; tempered; three kinds of moves; four kinds of storage; with and without transformation) and what is derived from the chain; non-trivial: a run that was sampled",
        quick=160,
        cap=50,
    ),
]
