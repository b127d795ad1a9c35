"""Model files that are not well formed are refused."""
import copy

import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib import modelgen as mg
from vlib.core import Violation, expect, must_work, quiet
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, warm  # noqa

C1 = ["c", 1]


def at(lst, i):
    return lst[i % len(lst)]


# name -> (mutation of (spec, integer) -> spec or text edit, accepted error types)
def drop_eq(s, i):
    del s["eqs"][i % len(s["eqs"])]


def extra_var(s, i):
    s["vars"].insert(i % (len(s["vars"]) + 1), "extra")


def extra_eq(s, i):
    s["eqs"].append({"lhs": at(s["vars"], i), "terms": [[["c", 0.5], at(s["vars"], i + 1), -1]]})


def undeclared_var(s, i):
    at(s["eqs"], i)["terms"].append([["c", 0.1], "ghost", [0, -1, 1][i % 3]])


def undeclared_par(s, i):
    at(s["eqs"], i)["terms"].append([["p", "ghost"], at(s["vars"], i), [0, -1, 1][i % 3]])


def undeclared_con(s, i):
    s["con"].append([["c", 0.1], "ghost", 0])


def undeclared_con_par(s, i):
    s["con"].append([["p", "ghost"], at([v for v in s["vars"] if v != s["cvar"]], i), 0])


def undeclared_lhs(s, i):
    at(s["eqs"], i)["lhs"] = "ghost"


def space(s, i):
    j = i % len(s["vars"])
    k = (j + 1) % len(s["vars"])
    s["vars"][j] = s["vars"][j] + " " + s["vars"][k]
    if k != j:
        del s["vars"][k]


def fwd_con(s, i):
    s["con"].append([["c", 0.1], at([v for v in s["vars"]], i), 1 + i % 2])


def unused_var(s, i):
    # same counts, but one variable appears nowhere
    s["vars"].append("extra")
    s["eqs"].append({"lhs": s["cvar"], "terms": [[["c", 0.3], at(s["vars"][:-1], i), -1]]})


def unused_shock(s, i):
    s["shocks"].insert(i % (len(s["shocks"]) + 1), "e_extra")
    s["sigs"]["e_extra"] = list(s["sigs"].values())[0]


def circular(s, i):
    s["funcs"].append(["ca", ["+", ["p", "cb"], C1]])
    s["funcs"].append(["cb", ["-", ["p", "ca"], C1]])


def undefined_fun(s, i):
    s["funcs"].append(["ca", ["f", "nofun", ["c", 1]]])


def undefined_in_fun(s, i):
    s["funcs"].append(["ca", ["+", ["p", "ghost"], C1]])


def obs_unknown(s, i):
    at(s["obs"], i)[1].append([["c", 1], "ghost"])


def obs_dated(s, i):
    o = at(s["obs"], i)
    o[1].append([["c", 1], "%s(%s)" % (at(s["vars"], i), ["-1", "+1", "-2"][i % 3])])


def cov_unknown(s, i):
    s["sigs"][at(s["shocks"], i)] = "ghost"


SPEC = {
    "drop_eq": (drop_eq, (SyntaxError,)),
    "extra_var": (extra_var, (SyntaxError,)),
    "extra_eq": (extra_eq, (SyntaxError,)),
    "undeclared_var": (undeclared_var, (SyntaxError,)),
    "undeclared_par": (undeclared_par, (SyntaxError,)),
    "undeclared_con": (undeclared_con, (SyntaxError,)),
    "undeclared_con_par": (undeclared_con_par, (SyntaxError,)),
    "undeclared_lhs": (undeclared_lhs, (SyntaxError,)),
    "space": (space, (SyntaxError,)),
    "fwd_con": (fwd_con, (NotImplementedError,)),
    "unused_var": (unused_var, (SyntaxError,)),
    "unused_shock": (unused_shock, (SyntaxError,)),
    "circular": (circular, (NameError,)),
    "undefined_fun": (undefined_fun, (NameError,)),
    "undefined_in_fun": (undefined_in_fun, (NameError,)),
    "obs_unknown": (obs_unknown, (Exception,)),
    "obs_dated": (obs_dated, (Exception,)),
    "cov_unknown": (cov_unknown, (Exception,)),
}


def t_two_cons(txt, s, i):
    return txt.replace("  constraint:\n", "  constraint:\n    - %s = 0.5*%s\n" % (s["cvar"], at([v for v in s["vars"] if v != s["cvar"]], i)))


def t_no_con(txt, s, i):
    a, b = txt.split("  constraint:\n")
    return a + b.split("\n", 1)[1]


def t_con_form(txt, s, i):
    a, b = txt.split("  constraint:\n")
    line, rest = b.split("\n", 1)
    x = at([v for v in s["vars"] if v != s["cvar"]], i)
    form = ["- %s - 0.5*%s = 0" % (s["cvar"], x), "- %s - 0.5*%s" % (s["cvar"], x), "- %s = 0.5*%s = 0" % (s["cvar"], x)][i % 3]
    return a + "  constraint:\n    " + form + "\n" + rest


def t_garbage(txt, s, i):
    a, b = txt.split("  model:\n")
    g = ["- y = = r", "- y = (r + 1", "- y = r +* 2", "- y = r = 0"][i % 4]
    line, rest = b.split("\n", 1)
    return a + "  model:\n    " + g + "\n" + b.split("\n", 1)[1] if line.strip().startswith("-") else a + "  model:\n    " + g + "\n" + b


TEXT = {
    "two_constraints": (t_two_cons, (NotImplementedError,)),
    "no_constraint": (t_no_con, (Exception,)),
    "constraint_form": (t_con_form, (SyntaxError,)),
    "garbage": (t_garbage, (Exception,)),
}
LATE = ["xbar_positive"]
KINDS = sorted(SPEC) + sorted(TEXT) + LATE


@st.composite
def case(draw):
    return {
        "spec": draw(cases.model(("gen", "gen", "nk"))),
        "kind": draw(st.sampled_from(KINDS)),
        "at": draw(st.integers(0, 12)),
        "nocache": draw(st.booleans()),
    }


def run(case, rec):
    from pydsge import DSGE

    spec = copy.deepcopy(case["spec"])
    kind, i = case["kind"], case["at"]
    if not usable(Ref(spec)) or (kind == "drop_eq" and len(spec["eqs"]) == 1):
        return "skip"
    # the model itself is fine ...
    if i == 0:
        m = mods.read(spec)
        with must_work("set_par"):
            mods.setp(m, {})
    # ... and this one is not
    with mods.Folder() as d:
        txt = None
        if kind in SPEC:
            fun, types = SPEC[kind]
            fun(spec, i)
            f = mg.write(spec, d)
        elif kind in TEXT:
            fun, types = TEXT[kind]
            f = mg.write(spec, d)
            txt = fun(mg.render(spec), case["spec"], i)
            with open(f, "w") as h:
                h.write(txt)
        else:
            types = (NotImplementedError,)
            spec["params"] = [p for p in spec["params"] if p[0] != "x_bar"] + [["x_bar", 0.01 + i]]
            spec["funcs"] = [p for p in spec["funcs"] if p[0] != "x_bar"]
            f = mg.write(spec, d)
        err = None
        try:
            with quiet():
                m = DSGE.read(f, nocache=case["nocache"])
                m.debug = True
                if kind in ("no_constraint", "cov_unknown", "xbar_positive"):
                    m.set_par([float(v) for v in m.par_fix])
                    m.get_cov()
        except Exception as e:  # noqa
            err = e
        if err is None:
            raise Violation("a model file with a defect (%s) was accepted" % kind)
        if not isinstance(err, types):
            raise Violation(
                "defect %s was reported as %s: %s (expected %s)"
                % (kind, type(err).__name__, err, [t.__name__ for t in types])
            )
    return kind


PARTS = [
    Part(
        "defects",
        case,
        run,
        "a random well-formed model with one defect planted into its text (equation or variable counts, undeclared names anywhere, constraint form and number, leads in the constraint, unused shocks or variables, circular or undefined parameter functions, dated observables, positive bound); non-trivial: every case",
        quick=900,
    ),
]
