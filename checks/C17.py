"""What was saved is what is loaded."""
import copy
import os

import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable
from checks.C12 import warm  # noqa
from checks.C12 import lin_model, data_of, noise, cov_of, frame
from checks.C14 import vector

ASSUMPTIONS = [
    "models are loaded with the same version of Python and of the package they were saved with",
    "parameters and filters are set up again after loading, as documented (the estimation setup and measurement errors are stored)",
]


@st.composite
def save_case(draw):
    spec = draw(lin_model())
    spec = draw(cases.with_prior(spec, hi=3))
    if draw(st.integers(0, 2)) == 0:
        # make the functions file matter
        p = [n for n, _ in spec["params"] if n[0] == "a" and n[1:].isdigit()]
        if p:
            spec["funcs"].insert(0, ["uf", ["f", "ufun", ["p", p[0]], ["p", p[-1]]]])
            spec["ufuncs"] = 1
            e = spec["eqs"][0]["terms"]
            if e:
                e[0][0] = ["*", ["c", 0.5], ["*", e[0][0], ["p", "uf"]]]
    q = len(spec["obs"])
    ops = []
    kinds = [None] * draw(st.integers(1, 8))
    if draw(st.booleans()):
        # saved again after changes
        kinds = ["prep", draw(st.sampled_from([None, "R"])), "save"]
        for _ in range(draw(st.integers(1, 3))):
            kinds += [draw(st.sampled_from(["R", "prep", "R", "mode", "descr", None])) for _ in range(draw(st.integers(1, 2)))] + ["save"]
    for o in kinds:
        o = o or draw(st.sampled_from(["data", "prep", "R", "set", "save", "save", "load", "load", "name", "descr", "moved", "mode"]))
        x = None
        if o == "data":
            x = draw(data_of(q, 2, 6))
        elif o == "R":
            x = draw(noise(q))
        elif o == "prep":
            x = [draw(st.booleans()), draw(st.integers(5, 12)), draw(st.sampled_from([None, 0, 5])), draw(st.booleans())]
        elif o in ("set", "mode"):
            x = draw(vector(spec))
        elif o == "save":
            x = draw(st.sampled_from([None, "one", "one.npz", "sub/two"]))
        elif o == "load":
            x = draw(st.booleans())
        elif o in ("name", "descr"):
            x = draw(st.sampled_from(["abc", "my_model", "x_1"]))
        ops.append([o, x])
    ops += [["save", draw(st.sampled_from([None, "one", "sub/two"]))], ["load", draw(st.booleans())]]
    return {"spec": spec, "data": draw(data_of(q, 2, 6)), "ops": ops, "perm": draw(st.permutations(range(q))), "vec": [draw(vector(spec)) for _ in range(2)], "nodata": draw(st.integers(0, 5)) == 0}


def behave(m, ref, tag):
    """The loaded model is the model that was written."""
    with must_work("set_par after loading"):
        m.set_par("calib")
    expect_close(m.get_par(), [ref.par[n] for n in m.par_names], tag + ": calibrated parameters")
    vs = ref.spec["vars"]
    x = np.zeros(ref.n)
    state = mods.zero(m)
    e = np.array([0.7, -0.4, 0.3])[: ref.m]
    eps = mods.shockvec(m, {z: e[ref.sx[z]] for z in m.shocks})
    for t in range(3):
        with must_work("transition after loading"):
            state = m.t_func(state, eps * (t == 0), linear=True)[0]
        x = ref.step(x, e * (t == 0), 0, 0)
        expect_close(mods.pick(m, state, vs), ref.byname(x, vs), tag + ": transition", rtol=1e-6, scale=1 + np.max(np.abs(x)))


def run_save(c, rec):
    from pydsge import DSGE

    spec = c["spec"]
    ref = Ref(spec, {})
    if not usable(ref):
        return False
    mean = {n: (0.5 * (p[-2] + p[-1]) if p[-3] == "uniform" else p[-2]) for n, p in spec["prior"].items()}
    if not usable(Ref(spec, mean)):
        return False
    names = [o[0] for o in spec["obs"]]
    q = len(names)
    hit = 0
    with mods.Folder() as d:
        os.mkdir(os.path.join(d, "sub"))
        os.mkdir(os.path.join(d, "src"))
        f = mg.write(spec, os.path.join(d, "src"))
        with must_work("reading a valid model"):
            m = DSGE.read(f, nocache=True)
        m.debug = True
        m.path = d
        # what the object is like
        now = {"data": None, "name": m.name, "descr": m.description, "prep": None, "R": None, "mode": None}
        files = {}
        last = None
        if not c["nodata"]:
            m.load_data(frame(spec, c["data"], c["perm"]))
            now["data"] = c["data"]
        for op, x in c["ops"]:
            if op == "data":
                with must_work("load_data"):
                    m.load_data(frame(spec, x, c["perm"]))
                now["data"] = x
                now["prep"] = None
            elif op == "set":
                with quiet():
                    try:
                        m.set_par("prior_mean")
                        m.set_par(list(m.prior)[0], x[0])
                    except ValueError:
                        pass
            elif op == "mode":
                m.fdict["mode_x"] = np.array(x)
                now["mode"] = x
            elif op == "name":
                m.name = x
                now["name"] = x
            elif op == "descr":
                m.description = x
                now["descr"] = x
            elif op == "moved":
                m.path = os.path.join(d, "sub") if m.path == d else d
            elif op == "prep":
                if now["data"] is None:
                    continue
                linear, N, seed, tr = x
                with must_work("prep_estim"):
                    m.prep_estim(N=N, linear=linear, seed=seed, use_prior_transform=tr, dry_run=False, debug=True, verbose=False)
                now["prep"] = [linear, N, seed, tr]
                now["lprob"] = None
            elif op == "R":
                if now["prep"] is None:
                    continue
                R = cov_of(x if x[0] != "scale" else ["none"], q)
                m.filter.R = np.eye(q) if R is None else R
                now["R"] = m.filter.R.copy()
            elif op == "save":
                if now["prep"] is not None:
                    now["R"] = m.filter.R.copy()
                with must_work("save"):
                    if x is None:
                        m.save(verbose=False)
                        p = os.path.join(m.path, m.name + "_meta.npz")
                    else:
                        p = os.path.join(d, x)
                        m.save(p, verbose=False)
                        p = p if p.endswith(".npz") else p + ".npz"
                expect(os.path.exists(p), "save did not write %s" % os.path.basename(p))
                snap = copy.deepcopy(now)
                if now["prep"] is not None:
                    with quiet():
                        snap["lprob"] = [float(m.lprob(np.array(v), verbose=False, use_prior_transform=False)) for v in c["vec"]]
                        snap["lpt"] = float(m.lprob(0.3 + np.zeros(len(m.prior)), verbose=False))
                files[p] = snap
                last = p
                others = {k: v for k, v in files.items() if k != p}
                for k in others:
                    expect(os.path.exists(k), "saving removed another file")
            elif op == "load" and files:
                p = last
                snap = files[p]
                with must_work("load"):
                    m2 = DSGE.load(p, force_parse=bool(x))
                m2.debug = True
                tag = "loaded (parsed)" if x else "loaded"
                expect(m2.name == snap["name"], "%s: name %r, was %r" % (tag, m2.name, snap["name"]))
                expect(os.path.abspath(m2.path) == os.path.dirname(p), "%s: path %r" % (tag, m2.path))
                expect(str(m2.fdict["description"]) == str(snap["descr"]), "%s: description %r, was %r" % (tag, m2.fdict["description"], snap["descr"]))
                if snap["data"] is not None:
                    expect_close(np.asarray(m2.data), np.array(snap["data"])[:, [names.index(o) for o in m2.data.columns]], tag + ": data", rtol=0, atol=0)
                if snap["mode"] is not None:
                    expect_close(m2.get_par("mode", full=False), snap["mode"], tag + ": mode", rtol=1e-15)
                behave(m2, ref, tag)
                if snap["prep"] is not None:
                    linear, N, seed, tr = snap["prep"]
                    with must_work("prep_estim after loading"):
                        m2.prep_estim(load_R=True, dry_run=False, debug=True, verbose=False)
                    expect_close(m2.filter.R, snap["R"], tag + ": measurement errors", rtol=1e-14)
                    expect((m2.filter.name == "KalmanFilter") == linear, tag + ": kind of filter")
                    if not linear:
                        expect(m2.filter.N == N, tag + ": size of the ensemble")
                    with must_work("lprob after loading"):
                        got = [float(m2.lprob(np.array(v), verbose=False, use_prior_transform=False)) for v in c["vec"]]
                        gt = float(m2.lprob(0.3 + np.zeros(len(m2.prior)), verbose=False))
                    for a, b in zip(got + [gt], snap["lprob"] + [snap["lpt"]]):
                        if not (a == b or (a != a and b != b) or abs(a - b) <= 1e-6 * (1 + abs(b))):
                            raise Violation("%s: log posteriors %s, %s when saved" % (tag, got + [gt], snap["lprob"] + [snap["lpt"]]))
                    rec.label("estimation")
                # they are separate
                with quiet():
                    m2.set_par("prior_mean")
                    m2.fdict["mode_x"] = np.zeros(1)
                    m2.fdict["seed"] = 99
                if now["mode"] is not None:
                    expect_close(m.fdict["mode_x"], now["mode"], "changing the loaded model changed the one that was saved")
                hit += 1
                rec.label(tag)
                if snap["data"] is None:
                    rec.label("without data")
                if x is not None and len(files) % 2 == 0:
                    # carry on with the loaded one
                    with must_work("load"):
                        m = DSGE.load(p, force_parse=bool(x))
                    m.debug = True
                    m.description = snap["descr"]
                    now = copy.deepcopy(snap)
                    now["prep"] = None
                    rec.label("carried on")
    return "round trip" if hit else False


KEYS = ["pars", "resid", "init", "flags", "x"]


@st.composite
def rdict_case(draw):
    files = []
    for _ in range(draw(st.integers(1, 5))):
        content = {}
        for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, unique=True)):
            shape = draw(st.sampled_from([(), (3,), (2, 3), (2, 1, 3), (0,), (1,)]))
            n = int(np.prod(shape))
            content[k] = [list(shape), [draw(st.integers(-500, 500)) / 7.0 for _ in range(n)], draw(st.sampled_from(["float", "int", "str", "frame"]))]
        files.append(
            {
                "content": content,
                "path": draw(st.sampled_from([None, "res", "res.npz", "sub/res", "sub/res.npz", "abs/res", "abs/res.npz", "a.b", "npz", "x"])),
                "suffix": draw(st.sampled_from(["", "", "_1", "_b", ".c", "npz"])),
            }
        )
    return {"files": files, "order": draw(st.permutations(range(len(files))))}


def build(v):
    import pandas as pd

    shape, vals, kind = v
    a = np.array(vals, float).reshape(shape)
    if kind == "int":
        return a.astype(int)
    if kind == "str":
        return "%s" % (vals[:1],)
    if kind == "frame" and len(shape) == 2:
        r = np.empty(1, dtype=object)
        r[0] = pd.DataFrame(a)
        return r
    return a


_m = {}


def run_rdict(c, rec):
    if not _m:
        _m["m"] = mods.read(mods.nk())
    m = copy.copy(_m["m"])
    with mods.Folder() as d:
        os.mkdir(os.path.join(d, "sub"))
        os.mkdir(os.path.join(d, "abs"))
        m.path = d
        want = {}
        for f in c["files"]:
            rd = {k: build(v) for k, v in f["content"].items()}
            p = f["path"]
            if p and p.startswith("abs"):
                p = os.path.join(d, p)
            with must_work("save_rdict"):
                if p is None:
                    m.save_rdict(rd, suffix=f["suffix"], verbose=False)
                else:
                    m.save_rdict(rd, p, suffix=f["suffix"], verbose=False)
            base = p[:-4] if p and p.endswith(".npz") else p
            want[(base, f["suffix"])] = (rd, p)
            # two ways to write the same file name
        for i in c["order"]:
            f = c["files"][i]
            p = f["path"]
            if p and p.startswith("abs"):
                p = os.path.join(d, p)
            base = p[:-4] if p and p.endswith(".npz") else p
            if sum((b or m.name + "_res") + s == (base or m.name + "_res") + f["suffix"] for b, s in want) > 1:
                continue
            rd, _ = want[(base, f["suffix"])]
            with must_work("load_rdict"):
                got = m.load_rdict(p, suffix=f["suffix"]) if p is not None else m.load_rdict(suffix=f["suffix"])
            expect(set(got) == set(rd), "results %s, saved %s" % (sorted(got), sorted(rd)))
            for k in rd:
                a, b = got[k], np.asarray(rd[k])
                expect(np.shape(a) == np.shape(b), "%s has shape %s, saved %s" % (k, np.shape(a), np.shape(b)))
                if b.dtype == object:
                    expect(a[0].equals(b[0]), "%s differs from what was saved" % k)
                else:
                    expect(np.array_equal(a, b) and a.dtype == b.dtype, "%s differs from what was saved" % k)
        for root, _, fs in os.walk(d):
            for x in fs:
                expect(x.endswith(".npz"), "file %s" % x)
    return "results"


PARTS = [
    Part(
        "models",
        save_case,
        run_save,
        "random models with priors and observables, 3-10 operations: data, parameters, estimation setup, measurement errors, names and folders changed, saved and loaded (parsed again or not), continued with the loaded model; non-trivial: a load",
        quick=200,
        cap=60,
    ),
    Part(
        "results",
        rdict_case,
        run_rdict,
        "1-5 dictionaries of arrays, strings and frames saved and loaded under relative and absolute names with and without ending and suffix; non-trivial: all",
        quick=800,
        cap=10,
    ),
]
