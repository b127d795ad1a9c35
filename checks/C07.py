"""Reading: a model is what its files say now, whatever was read before."""
import copy
import os
import sys

import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, expect_close, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, warm  # noqa

ASSUMPTIONS = ["files are changed by whole-file rewrites between calls, as an editor does"]

FILES = ["a/model", "b/model", "a/other"]


def variant(spec, kind, i):
    s = copy.deepcopy(spec)
    if kind == "calib":
        j = i % len(s["params"])
        n, v = s["params"][j]
        if n == "x_bar":
            s["params"][j][1] = v * 2
        elif n.startswith("a"):
            s["params"][j][1] = round((v + 0.31) % 0.9 + 0.05, 4)
        else:
            s["params"][j][1] = round(v * 1.5, 4)
    elif kind == "coef":
        j = i % len(s["eqs"])
        t = s["eqs"][j]["terms"] or s["eqs"][0]["terms"] or s["con"]
        t[i % len(t)][0] = ["*", ["c", 0.5], t[i % len(t)][0]]
    elif kind == "rule":
        t = s["con"]
        t[i % len(t)][0] = ["*", ["c", 0.5], t[i % len(t)][0]]
    elif kind == "funcs":
        s["ufuncs"] = 2
    elif kind == "name":
        s["name"] = s["name"] + "2"
    elif kind == "override":
        s["ufuncs"] = 3
    elif kind == "spaces":
        s["spaces"] = 1 + i
    elif kind == "obs":
        o = s["obs"][i % len(s["obs"])]
        o[2] = ["+", ["c", 1], o[2]]
    elif kind == "nofuncs":
        s["nofuncs"] = 1
    return s


KINDS = ["same", "calib", "coef", "rule", "funcs", "funcs", "name", "obs", "nofuncs", "override", "override", "spaces"]


@st.composite
def case(draw):
    plain = draw(st.integers(0, 2)) == 0
    spec = draw(mg.contraction_spec(max_endo=3, max_shocks=2, ufuncs=not plain))
    if plain:
        # a model that makes sense with and without a functions file
        p = [n for n, _ in spec["params"] if n[0] == "a"]
        spec["funcs"].insert(0, ["uf", ["f", "normcdf", ["p", p[0]]]])
        e = spec["eqs"][0]["terms"]
        e[0][0] = ["*", ["p", "uf"], e[0][0]]
    elif not any("ufun" in str(f) for f in spec["funcs"]) and draw(st.integers(0, 4)):
        # make sure that the functions file matters
        p = [n for n, _ in spec["params"] if n[0] == "a"]
        spec["funcs"].insert(0, ["uf", ["f", "ufun", ["p", p[0]], ["p", p[-1]]]])
        e = spec["eqs"][0]["terms"]
        e[0][0] = ["*", ["p", "uf"], e[0][0]]
    kinds = ["same"] + draw(st.lists(st.sampled_from(KINDS[1:]), min_size=1, max_size=3, unique=True))
    ops = []
    nread = 0
    for _ in range(draw(st.integers(3, 12))):
        o = draw(st.sampled_from(["write", "write", "read", "read", "read", "setpar", "poke"]))
        if o == "write":
            ops.append([o, draw(st.integers(0, 2)), draw(st.integers(0, len(kinds) - 1))])
        elif o == "read":
            ops.append([o, draw(st.integers(0, 2)), draw(st.integers(0, 3)) == 0])
            nread += 1
        elif o == "setpar":
            ops.append([o, draw(st.integers(0, 9)), draw(cases.params(spec))])
        else:
            ops.append([o, draw(st.integers(0, 9)), draw(st.integers(0, 3))])
    return {
        "spec": spec,
        "kinds": kinds,
        "at": draw(st.integers(0, 9)),
        "ops": ops,
        "rows": draw(cases.shock_rows(spec, 1, 3)),
    }


def behaves(m, spec, par, rows, what, fresh=False):
    ref = Ref(spec, par)
    if not usable(ref):
        return
    if fresh:
        expect(m.mod_name == spec["name"], "%s: name %r" % (what, m.mod_name))
        expect(m.par_names == [n for n, _ in spec["params"]], "%s: parameter names" % what)
        expect_close(m.par_fix, [float(v) for _, v in spec["params"]], "%s: calibration" % what)
        with must_work("set_par"):
            mods.setp(m, par)
    else:
        with must_work("get_par"):
            expect_close(
                m.get_par(), [float(ref.par[n]) for n, _ in spec["params"]],
                "%s: parameters" % what,
            )
    P, Q = ref.linear()
    x, xr = mods.zero(m), np.zeros(ref.n)
    with must_work("t_func"):
        for r in rows:
            e = mods.shockvec(m, r)
            x, f = m.t_func(x, e, linear=True)
            xr = P @ xr + Q @ np.array([r.get(s, 0.0) for s in ref.shocks])
            expect_close(
                mods.pick(m, x, spec["vars"]), ref.byname(xr, spec["vars"]),
                "%s: response" % what, scale=1 + np.max(np.abs(xr)),
            )
        o = np.asarray(m.obs(np.atleast_2d(x)))[0]
    expect_close(o, ref.H @ xr + ref.h, "%s: observables" % what, scale=1 + np.max(np.abs(xr)))
    expect_close(m.sys[2], ref.x_bar, "%s: bound" % what)


def read(f, nocache):
    from pydsge import DSGE

    # as in a user's session, compiled files may be written next to the model
    old, sys.dont_write_bytecode = sys.dont_write_bytecode, False
    try:
        return DSGE.read(f, nocache=nocache)
    finally:
        sys.dont_write_bytecode = old


def run(case, rec):

    spec = case["spec"]
    variants = [variant(spec, k, case["at"]) for k in case["kinds"]]
    cur = {}
    held = []  # [model, spec, par or None]
    reads = 0
    stale = False
    uses = any("ufun" in str(f) for f in spec["funcs"])
    with mods.Folder() as d:
        for s in ("a", "b"):
            os.mkdir(os.path.join(d, s))
        last = {}
        for op in [["write", 0, 0], ["read", 0, False]] + case["ops"] + [["read", case["at"] % 3, False]]:
            if op[0] == "write":
                s = variants[op[2]]
                sub, fname = FILES[op[1]].split("/")
                folder = os.path.join(d, sub)
                ff = os.path.join(folder, fname + "_funcs.py")
                if os.path.exists(ff):
                    os.remove(ff)
                fn = mg.write(s, folder, fname)
                if s.get("spaces"):
                    with open(fn, "a") as h:
                        h.write("\n" * s["spaces"])
                if s.get("nofuncs") and os.path.exists(ff):
                    os.remove(ff)
                if op[1] in last:
                    stale = True
                cur[op[1]] = s
            elif op[0] == "read":
                if op[1] not in cur:
                    continue
                s = cur[op[1]]
                f = os.path.join(d, FILES[op[1]] + ".yaml")
                if s.get("nofuncs") and uses:
                    try:
                        with quiet():
                            m = read(f, op[2])
                    except NameError:
                        rec.label("missing functions")
                        continue
                    raise Violation("a model whose functions file is missing was read")
                with must_work("reading"):
                    m = read(f, op[2])
                m.debug = True
                # what save_meta will write
                with open(f) as h:
                    expect(m.fdict["yaml_raw"] == h.read(), "the text kept with the model is not that of its file")
                ff = f[:-5] + "_funcs.py"
                if os.path.exists(ff):
                    with open(ff) as h:
                        expect(m.fdict.get("ffile_raw") == h.read(), "the functions kept with the model are not those of its file")
                else:
                    expect(m.fdict.get("ffile_raw") is None, "functions are kept with a model that has none")
                what = "model read from %s" % FILES[op[1]]
                expect(not hasattr(m, "par") and not hasattr(m, "data") and not hasattr(m, "filter"),
                       "%s is not pristine" % what)
                expect("poked" not in m.fdict and "data" not in m.fdict, "%s carries results of another model" % what)
                expect(os.path.realpath(m.path) == os.path.realpath(os.path.dirname(f)),
                       "%s has path %r" % (what, m.path))
                behaves(m, s, {}, case["rows"], what, fresh=True)
                last[op[1]] = s
                held.append([m, s, {}])
                reads += 1
            elif held:
                h = held[op[1] % len(held)]
                if op[0] == "setpar":
                    if not usable(Ref(h[1], op[2])):
                        continue
                    with must_work("set_par"):
                        mods.setp(h[0], op[2])
                    h[2] = op[2]
                else:
                    m = h[0]
                    m.fdict["poked"] = 1
                    m.name = "poked"
                    import pandas as pd

                    m.load_data(pd.DataFrame(np.ones((3, len(m.observables))), columns=m.observables))
        for i, (m, s, par) in enumerate(held):
            behaves(m, s, par, case["rows"], "model %d at the end" % i)
    if reads > 1:
        rec.label("reread after change" if stale else "reread")
    return "history" if reads > 1 else False


PARTS = [
    Part(
        "files",
        case,
        run,
        "histories of writing variants of a model (calibration, coefficients, rule, observables, name, functions file changed or removed) to three files in two folders, reading them with and without the cache, changing parameters and data of the models held; non-trivial: at least two reads",
        quick=360,
        cap=75,
    ),
]
