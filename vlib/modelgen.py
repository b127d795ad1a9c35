"""Generated models: a JSON-able spec, its YAML text, and strategies.

A spec is data only, so that a failing case can be written out and replayed:

  name, vars, cvar, shocks,
  params   [[name, value]]             calibration
  funcs    [[name, expr]]              `parafunc`
  ufuncs   0/1                         ship a *_funcs.py with `ufun`
  eqs      [{"lhs": var, "terms": [[expr, sym, date], ...]}]   var = sum(terms)
  con      [[expr, sym, date], ...]                            cvar = sum(con)
  obs      [[name, [[expr, var], ...], expr]]
  sigs     {shock: param name}
  prior    {param: [...6 entries]} or None

`expr` is a small AST over parameters; it is rendered to text for pydsge and
evaluated here, so the oracle never sees what pydsge made of the text.
"""
import math
import os

import hypothesis.strategies as st

# ---------------------------------------------------------------- expressions


def ev(e, env):
    op = e[0]
    if op == "c":
        return float(e[1])
    if op == "p":
        return float(env[e[1]])
    if op == "neg":
        return -ev(e[1], env)
    if op == "*":
        return ev(e[1], env) * ev(e[2], env)
    if op == "+":
        return ev(e[1], env) + ev(e[2], env)
    if op == "-":
        return ev(e[1], env) - ev(e[2], env)
    if op == "/":
        return ev(e[1], env) / ev(e[2], env)
    if op == "pow":
        return ev(e[1], env) ** e[2]
    if op == "f":
        a = [ev(x, env) for x in e[2:]]
        if env.get("#ufuncs", 1) == 3 and e[1] in FUN_C:
            return FUN_C[e[1]](*a)
        if env.get("#ufuncs", 1) == 2 and e[1] in FUN_B:
            return FUN_B[e[1]](*a)
        return FUN[e[1]](*a)
    raise KeyError(op)


def _ncdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def _npdf(x):
    return math.exp(-0.5 * x * x) / math.sqrt(2 * math.pi)


def _nppf(p):
    # bisection on the cdf: slow and obviously right
    lo, hi = -40.0, 40.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if _ncdf(mid) < p:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


FUN = {
    "exp": math.exp,
    "log": math.log,
    "sqrt": math.sqrt,
    "normcdf": _ncdf,
    "normpdf": _npdf,
    "normppf": _nppf,
    "norminv": _nppf,
    "ufun": lambda a, b: a * b / (1 + a),
    "ufun2": lambda a: 1 / (1 + a * a),
}

# a second version of the functions file
FUN_B = {
    "ufun": lambda a, b: a * b / (2 + a),
    "ufun2": lambda a: 1 / (2 + a * a),
}

# a third one, which replaces a function that pydsge provides
FUN_C = {
    "normcdf": lambda a: 1 / (4 + a * a),
}

UFUNCS_PY3 = (
    "def normcdf(a):\n    return 1 / (4 + a * a)\n\n"
    "def ufun(a, b):\n    return a * b / (1 + a)\n\n"
    "def ufun2(a):\n    return 1 / (1 + a * a)\n"
)

# as long as the first one
UFUNCS_PY2 = (
    "def ufun(a, b):\n    return a * b / (2 + a)\n\n"
    "def ufun2(a):\n    return 1 / (2 + a * a)\n"
)

UFUNCS_PY = (
    "def ufun(a, b):\n    return a * b / (1 + a)\n\n"
    "def ufun2(a):\n    return 1 / (1 + a * a)\n"
)


def show(e, pw="**"):
    op = e[0]
    if op == "c":
        v = e[1]
        s = repr(float(v)) if not isinstance(v, int) else str(v)
        return s if v >= 0 else "(%s)" % s
    if op == "p":
        return e[1]
    if op == "neg":
        return "(-%s)" % show(e[1], pw)
    if op in "*/+-":
        return "(%s %s %s)" % (show(e[1], pw), op, show(e[2], pw))
    if op == "pow":
        return "%s%s%s" % (show(e[1], pw), pw, e[2])
    if op == "f":
        return "%s(%s)" % (e[1], ", ".join(show(x, pw) for x in e[2:]))
    raise KeyError(op)


# -------------------------------------------------------------------- render


def sym(name, date, plus=True):
    if date == 0:
        return name
    if date > 0:
        return "%s(%s%d)" % (name, "+" if plus else "", date)
    return "%s(%d)" % (name, date)


def term(t, style, flip=False):
    e, s, d = t
    x = sym(s, d, style.get("plus", True))
    c = show(e, style.get("pow", "**"))
    if flip:
        return "- %s*%s" % (c, x)
    return "+ %s*%s" % (c, x)


def render_eq(lhs, terms, style, k):
    """One equation as text; `k` selects how its terms are laid out."""
    left = [lhs]
    right = []
    for i, t in enumerate(terms):
        if k % 5 == 1 and i % 2:
            left.append(term(t, style, flip=True))
        elif k % 5 in (2, 4):
            left.append(term(t, style, flip=True))
        else:
            right.append(term(t, style))
    lt = " ".join(left)
    rt = " ".join(right)
    if rt.startswith("+ "):
        rt = rt[2:]
    if not rt:
        rt = "0"
    if k % 5 == 4:
        out = lt  # no equality sign: set equal to zero
    elif k % 5 == 3:
        out = "%s = %s" % (rt, lt) if rt != "0" else "%s = 0" % lt
    else:
        out = "%s = %s" % (lt, rt)
    if style.get("semi") and k % 2:
        out += ";"
    if style.get("cont") and " + " in out:
        i = out.index(" + ")
        out = out[: i + 2] + (" @ \n          " if k % 3 else " @\n          ") + out[i + 3:]
    return out


def render(spec, style=None):
    style = style or {}
    b = style.get("bullet", "-")
    pw = style.get("pow", "**")
    ks = style.get("layout", [0])
    out = []
    w = out.append
    if style.get("comments"):
        w("# a generated model")
    w("declarations:")
    w("  name: '%s'" % spec["name"])
    w("  variables: [%s]" % ", ".join(spec["vars"]))
    w("")
    w("equations:")
    w("  model:")
    eqs = list(enumerate(spec["eqs"]))
    for i, eq in eqs:
        if style.get("comments"):
            w("    # equation %d" % i)
        w(
            "    %s %s"
            % (b, render_eq(eq["lhs"], eq["terms"], style, ks[i % len(ks)]))
        )
        if style.get("comments"):
            w("")
    w("  constraint:")
    ct = " ".join(term(t, style) for t in spec["con"])
    if ct.startswith("+ "):
        ct = ct[2:]
    w("    %s %s = %s" % (b, spec["cvar"], ct or "0"))
    w("  observables:")
    for name, terms, const in spec["obs"]:
        t = " ".join("+ %s*%s" % (show(e, pw), v) for e, v in terms)
        w("    %s: %s + %s" % (name, t[2:], show(const, pw)))
    w("")
    w("calibration:")
    w("  parameters:")
    for n, v in spec["params"]:
        w("    %s: %s" % (n, num(v)))
    if spec["funcs"]:
        w("  parafunc:")
        for n, e in spec["funcs"]:
            w("    %s: %s" % (n, show(e, pw)))
    w("  covariances:")
    for s in spec["shocks"]:
        w("    %s: %s" % (s, spec["sigs"][s]))
    if spec.get("prior"):
        w("")
        w("estimation:")
        w("  prior:")
        for n, p in spec["prior"].items():
            w("    %s: [%s]" % (n, ", ".join(str(x) for x in p)))
    return "\n".join(out) + "\n"


def num(v):
    if isinstance(v, int):
        return str(v)
    s = repr(float(v))
    if "e" in s:  # YAML 1.1 does not read 1e-05 as a number
        s = "%.12f" % v
    return s


def write(spec, folder, fname="model", style=None):
    path = os.path.join(folder, fname + ".yaml")
    with open(path, "w") as f:
        f.write(render(spec, style))
    if spec.get("ufuncs"):
        with open(os.path.join(folder, fname + "_funcs.py"), "w") as f:
            f.write({2: UFUNCS_PY2, 3: UFUNCS_PY3}.get(spec["ufuncs"], UFUNCS_PY))
    return path


# ---------------------------------------------------------------- strategies

VNAMES = ["y", "c", "Pi", "x", "yy", "w", "inv", "q_a"]
W = [0.1, 0.2, 0.3, 0.45, 0.6, 0.05]


@st.composite
def bounded_expr(draw, pnames):
    """An expression with |value| <= 1 whenever all parameters lie in [0, 1]."""
    kind = draw(st.integers(0, 6))
    p = ["p", draw(st.sampled_from(pnames))]
    if kind == 0:
        return p
    if kind == 1:
        return ["neg", p]
    q = ["p", draw(st.sampled_from(pnames))]
    if kind == 2:
        return ["*", p, q]
    if kind == 3:
        return ["*", ["-", ["c", 1], p], q]
    if kind == 4:
        return ["pow", p, 2]
    if kind == 5:
        return ["/", p, ["+", ["c", 1], q]]
    return ["c", draw(st.sampled_from([1, 0.5, -1]))]


@st.composite
def func_expr(draw, pnames, ufuncs, base=None):
    kinds = ["avg", "exp", "one", "ncdf", "sqrt", "log", "npdf", "nppf", "norminv"]
    if ufuncs:
        kinds += ["ufun", "ufun2", "ufun"]
    kind = draw(st.sampled_from(kinds))
    # square roots and quantiles only of parameters, which lie in [0, 1]
    p = ["p", draw(st.sampled_from(base if base and kind in ("sqrt", "nppf", "norminv") else pnames))]
    q = ["p", draw(st.sampled_from(pnames))]
    if kind == "avg":
        return ["/", ["+", p, q], ["c", 2]]
    if kind == "exp":
        return ["f", "exp", ["neg", p]]
    if kind == "one":
        return ["-", ["c", 1], p]
    if kind == "ncdf":
        return ["f", "normcdf", p]
    if kind == "npdf":
        return ["f", "normpdf", p]
    if kind in ("nppf", "norminv"):
        # argument within (.25, .75): value within (-1, 1)
        a = ["+", ["c", 0.25], ["*", ["c", 0.5], p]]
        return ["f", "normppf" if kind == "nppf" else "norminv", a]
    if kind == "sqrt":
        return ["f", "sqrt", p]
    if kind == "log":
        return ["f", "log", ["+", ["c", 1], p]]
    if kind == "ufun":
        return ["f", "ufun", p, q]
    return ["f", "ufun2", p]


def unit(draw, lo=0.05, hi=0.95):
    return round(draw(st.integers(int(lo * 100), int(hi * 100))) / 100.0, 4)


@st.composite
def contraction_spec(
    draw,
    max_endo=4,
    max_shocks=3,
    min_shocks=1,
    max_date=3,
    n_obs=None,
    con_lags=True,
    forward=True,
    ufuncs=None,
    want_prior=False,
    direct=False,
    min_endo=1,
):
    """A linear model x_t = F(x_{t+1..t+3}, x_t, x_{t-1..t-3}, e_t) whose rows
    have absolute coefficient sums below one for all parameters in [0, 1].

    That makes the model with and without the constraint a contraction on
    bounded sequences, so that there is exactly one (perfect foresight)
    equilibrium for every state and shock.
    """
    n = draw(st.integers(min_endo, max_endo))
    m = draw(st.integers(min_shocks, max_shocks))
    endo = VNAMES[:n]
    cvar = "r"
    np_ = draw(st.integers(2, 4))
    pn = ["a%d" % i for i in range(1, np_ + 1)]
    params = [[p, unit(draw)] for p in pn]
    if ufuncs is None:
        ufuncs = draw(st.booleans())
    funcs = []
    nf = draw(st.integers(0, 2))
    fn = []
    for i in range(nf):
        # may refer to a function defined before or after it
        funcs.append(["g%d" % i, draw(func_expr(pn + fn, ufuncs, pn))])
        fn.append("g%d" % i)
    if draw(st.booleans()):
        funcs = funcs[::-1]
    allp = pn + fn
    shocks = ["e_%s" % s for s in ("u", "z", "m", "v", "g")[:m]]
    kinds = [
        "direct" if direct else draw(st.sampled_from(["ar", "direct", "ar", "ma"]))
        for _ in shocks
    ]
    procs = {}
    eqs = []
    variables = list(endo)
    zvars = []
    for s, k in zip(shocks, kinds):
        if k == "direct":
            continue
        z = "z" + s[1:]
        zvars.append(z)
        terms = [[["*", ["c", 0.9], ["p", draw(st.sampled_from(pn))]], z, -1]]
        if max_date > 1 and draw(st.integers(0, 3)) == 0:
            # AR(2): coefficients still sum to less than one
            terms[0][0] = ["*", ["c", 0.5], ["p", draw(st.sampled_from(pn))]]
            terms.append([["c", draw(st.sampled_from([0.3, -0.3, 0.4]))], z, -2])
        terms.append([["c", 1], s, 0])
        if k == "ma" and max_date > 0:
            terms.append([["c", draw(st.sampled_from([0.5, -0.5, 0.9]))], s, -1])
            if max_date > 1 and draw(st.booleans()):
                terms.append([["c", 0.3], s, -2])
                if max_date > 2 and draw(st.booleans()):
                    terms.append([["c", 0.2], s, draw(st.sampled_from([-3, -4]))])
        procs[z] = terms
    everything = endo + [cvar] + zvars

    def rows(dates, k, must=None):
        ws = []
        terms = []
        cand = []
        for i in range(k):
            v = draw(st.sampled_from(everything))
            d = draw(st.sampled_from(dates))
            cand.append((v, d))
        if must:
            cand = [must] + cand
        seen = set()
        cand = [c for c in cand if not (c in seen or seen.add(c))]
        for v, d in cand:
            terms.append([draw(bounded_expr(allp)), v, d])
            ws.append(draw(st.sampled_from(W)))
        tot = sum(ws)
        f = draw(st.sampled_from([0.9, 0.7, 0.5]))
        fac = f / tot if tot > f else 1.0
        return [
            [["*", ["c", round(x * fac, 6)], t[0]], t[1], t[2]]
            for x, t in zip(ws, terms)
        ]

    dates = [0, 1, -1, 0, 1, -1]
    if not forward:
        dates = [0, -1]
    if max_date > 1:
        dates += [2, -2] if forward else [-2]
    if max_date > 2:
        dates += [3, -3] if forward else [-3]
    if max_date > 2 and draw(st.integers(0, 4)) == 0:
        far = draw(st.sampled_from([4, 5]))
        dates += [far, -far] if forward else [-far]
    for i, v in enumerate(endo):
        k = draw(st.integers(1, 4))
        must = None
        if i == 0:
            must = (cvar, 0)
        if i == 0 and forward:
            # at least one forward-looking variable
            must = (cvar, 0)
        terms = rows(dates, k, must)
        terms = [t for t in terms if not (t[1] == v and t[2] == 0)]
        if i == 0:
            # the constrained variable really matters
            for t in terms:
                if t[1] == cvar and t[2] == 0:
                    w = t[0][1][1]
                    t[0] = ["c", -max(w, 0.1)]
            if forward and not any(t[2] > 0 for t in terms):
                terms.append([["c", 0.05], v, 1])
        eqs.append({"lhs": v, "terms": terms})
    # every shock must act somewhere
    con_sh = []
    for s, k in zip(shocks, kinds):
        z = "z" + s[1:]
        if k == "direct":
            where = draw(st.integers(0, n if con_lags else n - 1))
            if where == n:
                con_sh.append([["c", draw(st.sampled_from([1, -1, 0.5, 0.05]))], s, 0])
                if draw(st.booleans()):
                    eqs[0]["terms"].append([["c", 0.5], s, 0])
            else:
                eqs[where]["terms"].append(
                    [["c", draw(st.sampled_from([1, -1, 0.5, 2]))], s, 0]
                )
        else:
            i = draw(st.integers(0, n - 1))
            if not any(t[1] == z and t[2] == 0 for t in eqs[i]["terms"]):
                eqs[i]["terms"].append(
                    [["c", draw(st.sampled_from([1, -1, 0.5]))], z, 0]
                )
    for z, t in procs.items():
        eqs.append({"lhs": z, "terms": t})
    variables = endo + [cvar] + zvars
    order = draw(st.permutations(variables))
    eorder = draw(st.permutations(list(range(len(eqs)))))
    eqs = [eqs[i] for i in eorder]
    cdates = [0, 0, 0, -1, -1] if con_lags else [0]
    if con_lags and max_date > 1:
        cdates += [-2]
    if con_lags and max_date > 2:
        cdates += [-3]
    con = rows(cdates, draw(st.integers(1, 3)))
    con = [t for t in con if not (t[1] == cvar and t[2] == 0)]
    if not con:
        con = [[["c", 0.6], endo[0], 0]]
    con += con_sh
    if con_lags and max_date > 1 and draw(st.integers(0, 7)) == 0:
        con.append([["c", draw(st.sampled_from([0.4, -0.4]))], draw(st.sampled_from(shocks)), -1])
    # the bound
    xb = draw(st.sampled_from([-1, -0.5, -0.1, -0.02, -2]))
    if draw(st.booleans()):
        params.append(["x_bar", xb])
    else:
        params.append(["xlev", -xb])
        funcs.append(
            ["x_bar", ["neg", ["/", ["p", "xlev"], ["+", ["c", 1], ["p", pn[0]]]]]]
        )
    sigs = {}
    for s in shocks:
        params.append(["sig" + s[1:], round(draw(st.integers(1, 20)) / 10.0, 2)])
        sigs[s] = "sig" + s[1:]
    # measurement
    k = n_obs if n_obs is not None else draw(st.integers(1, 3))
    obs = []
    for i in range(k):
        tv = draw(
            st.lists(st.sampled_from(variables), min_size=1, max_size=2, unique=True)
        )
        ts = []
        for v in tv:
            e = draw(
                st.sampled_from(
                    [
                        ["c", 1],
                        ["c", -1],
                        ["p", pn[0]],
                        ["c", 2],
                        ["-", ["c", 1], ["p", pn[-1]]],
                    ]
                )
            )
            ts.append([e, v])
        const = draw(
            st.sampled_from(
                [["c", 0], ["c", 0.5], ["p", pn[0]], ["/", ["c", 1], ["+", ["c", 0.5], ["p", pn[1]]]]]
            )
        )
        obs.append(["OBS%d" % i, ts, const])
    spec = {
        "name": draw(st.sampled_from(["gen", "m-1", "model_x"])),
        "vars": list(order),
        "cvar": cvar,
        "shocks": list(draw(st.permutations(shocks))),
        "params": [list(p) for p in draw(st.permutations(params))],
        "funcs": funcs,
        "ufuncs": int(ufuncs),
        "eqs": eqs,
        "con": con,
        "obs": obs,
        "sigs": sigs,
        "prior": None,
    }
    if want_prior:
        prior = {}
        for p in draw(
            st.lists(st.sampled_from(pn), min_size=1, max_size=len(pn), unique=True)
        ):
            prior[p] = [dict(map(tuple, params))[p], 0.01, 0.99, "beta", 0.5, 0.15]
        for s in shocks:
            if draw(st.booleans()):
                prior["sig" + s[1:]] = [0.5, 0.01, 5, "inv_gamma_dynare", 0.5, 2]
        spec["prior"] = prior
    return spec


@st.composite
def style(draw):
    return {
        "bullet": draw(st.sampled_from(["-", "~"])),
        "pow": draw(st.sampled_from(["**", "^"])),
        "plus": draw(st.booleans()),
        "semi": draw(st.booleans()),
        "cont": draw(st.booleans()),
        "comments": draw(st.booleans()),
        "layout": draw(st.lists(st.integers(0, 9), min_size=1, max_size=4)),
    }


# ------------------------------------------------- a New-Keynesian family


def C(x):
    return ["c", x]


def P(x):
    return ["p", x]


def T(e, s, d=0):
    return [e, s, d]


@st.composite
def nk_spec(draw, want_prior=False, n_obs=3):
    """New-Keynesian models (determinate under an active rule, not a
    contraction; a peg is unstable, so long spells amplify)."""
    habit = draw(st.booleans())
    index = draw(st.booleans())
    inertia = draw(st.sampled_from(["notional", "actual", "none"]))
    growth = draw(st.booleans())
    eqs = []
    par = [
        ["beta", 0.99],
        ["theta", draw(st.sampled_from([0.66, 0.75, 0.8]))],
        ["sigma", draw(st.sampled_from([1.5, 1.0, 2.0]))],
        ["phi_pi", draw(st.sampled_from([1.7, 1.5, 2.0, 2.5]))],
        ["phi_y", draw(st.sampled_from([0.125, 0.2, 0.0]))],
        ["rho", draw(st.sampled_from([0.7, 0.5, 0.8]))],
        ["rho_u", draw(st.sampled_from([0.8, 0.6, 0.9]))],
        ["rho_z", draw(st.sampled_from([0.9, 0.5]))],
        ["rho_r", draw(st.sampled_from([0.4, 0.7]))],
        ["hh", draw(st.sampled_from([0.3, 0.6]))],
        ["iot", draw(st.sampled_from([0.2, 0.5]))],
        ["elb", draw(st.sampled_from([0.1, 0.5]))],
        ["y_mean", 0.4],
        ["sig_u", 0.5],
        ["sig_z", 0.3],
        ["sig_r", 0.2],
    ]
    funcs = [
        [
            "kappa",
            [
                "/",
                [
                    "*",
                    ["-", C(1), P("theta")],
                    ["-", C(1), ["*", P("beta"), P("theta")]],
                ],
                P("theta"),
            ],
        ],
        ["x_bar", ["-", P("elb"), ["/", C(1), P("beta")]]],
    ]
    one = ["-", C(1), P("hh")]
    isig = ["/", C(1), P("sigma")]
    if habit:
        den = ["+", C(1), P("hh")]
        ist = [
            T(["/", C(1), den], "y", 1),
            T(["/", P("hh"), den], "y", -1),
            T(["neg", ["/", one, ["*", P("sigma"), den]]], "r"),
            T(["/", one, ["*", P("sigma"), den]], "Pi", 1),
            T(["neg", ["/", one, ["*", P("sigma"), den]]], "u"),
        ]
    else:
        ist = [
            T(C(1), "y", 1),
            T(["neg", isig], "r"),
            T(isig, "Pi", 1),
            T(["neg", isig], "u"),
        ]
    eqs.append({"lhs": "y", "terms": ist})
    if index:
        den = ["+", C(1), ["*", P("beta"), P("iot")]]
        pc = [
            T(["/", P("beta"), den], "Pi", 1),
            T(["/", P("iot"), den], "Pi", -1),
            T(["/", P("kappa"), den], "y"),
            T(C(1), "z"),
        ]
    else:
        pc = [T(P("beta"), "Pi", 1), T(P("kappa"), "y"), T(C(1), "z")]
    eqs.append({"lhs": "Pi", "terms": pc})
    eqs.append(
        {"lhs": "u", "terms": [T(P("rho_u"), "u", -1), T(C(1), "e_u")]}
    )
    eqs.append(
        {"lhs": "z", "terms": [T(P("rho_z"), "z", -1), T(C(1), "e_z")]}
    )
    resp = [
        T(["*", ["-", C(1), P("rho")], P("phi_pi")], "Pi"),
        T(["*", ["-", C(1), P("rho")], P("phi_y")], "y"),
    ]
    vs = ["y", "Pi", "r", "u", "z"]
    if inertia == "notional":
        vs.append("rn")
        eqs.append(
            {
                "lhs": "rn",
                "terms": [T(P("rho"), "rn", -1)] + resp + [T(C(1), "vr")],
            }
        )
        con = [T(C(1), "rn")]
    elif inertia == "actual":
        con = [T(P("rho"), "r", -1)] + resp + [T(C(1), "vr")]
    else:
        con = [T(P("phi_pi"), "Pi"), T(P("phi_y"), "y"), T(C(1), "vr")]
    vs.append("vr")
    eqs.append(
        {"lhs": "vr", "terms": [T(P("rho_r"), "vr", -1), T(C(1), "e_r")]}
    )
    if growth:
        vs.append("dy")
        eqs.append({"lhs": "dy", "terms": [T(C(1), "y"), T(C(-1), "y", -1)]})
    obs = [
        ["GDP", [[C(1), "dy" if growth else "y"]], P("y_mean")],
        ["Infl", [[C(1), "Pi"]], C(0.5)],
        ["FFR", [[C(1), "r"]], ["/", C(1), P("beta")]],
    ][:n_obs]
    prior = None
    if want_prior:
        prior = {
            "theta": [0.7, 0.2, 0.95, "beta", 0.7, 0.05],
            "sigma": [1.2, 0.25, 3, "normal", 1.5, 0.2],
            "phi_pi": [1.8, 1.0, 3, "normal", 1.8, 0.1],
            "rho_u": ["None", 0.01, 0.99, "beta", 0.6, 0.1],
            "sig_u": [0.5, 0.025, 5, "inv_gamma_dynare", 0.3, 2],
            "sig_z": [0.5, 0.025, 5, "gamma", 0.3, 0.1],
            "rho_z": [0.5, 0.1, 0.9, "uniform", 0.1, 0.9],
            "sig_r": [0.5, 0.025, 5, "inv_gamma", 0.3, 0.1],
        }
        keys = draw(
            st.lists(
                st.sampled_from(sorted(prior)), min_size=2, max_size=8, unique=True
            )
        )
        prior = {k: prior[k] for k in keys}
    order = draw(st.permutations(vs))
    eorder = draw(st.permutations(list(range(len(eqs)))))
    return {
        "name": "nk",
        "vars": list(order),
        "cvar": "r",
        "shocks": list(draw(st.permutations(["e_u", "e_z", "e_r"]))),
        "params": par,
        "funcs": funcs,
        "ufuncs": 0,
        "eqs": [eqs[i] for i in eorder],
        "con": con,
        "obs": obs,
        "sigs": {"e_u": "sig_u", "e_z": "sig_z", "e_r": "sig_r"},
        "prior": prior,
    }
