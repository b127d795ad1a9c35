"""Strategies shared by several checks."""
import hypothesis.strategies as st

from . import modelgen as mg

RANGE = {
    "theta": (0.5, 0.95),
    "sigma": (0.5, 3),
    "phi_pi": (1.2, 3),
    "phi_y": (0.0, 0.5),
    "rho": (0.1, 0.95),
    "rho_u": (0.05, 0.97),
    "rho_z": (0.05, 0.97),
    "rho_r": (0.05, 0.9),
    "hh": (0.05, 0.9),
    "iot": (0.05, 0.9),
    "beta": (0.9, 0.999),
}


def size(hi=300):
    return st.integers(-hi, hi).map(lambda i: i / 100.0)


@st.composite
def model(draw, families=("gen", "gen", "nk"), **kw):
    fam = draw(st.sampled_from(families))
    if fam == "nk":
        return draw(mg.nk_spec(**{k: v for k, v in kw.items() if k in ("n_obs", "want_prior")}))
    return draw(mg.contraction_spec(**kw))


@st.composite
def params(draw, spec, edge=False):
    """Some parameters moved away from the calibration (stays determinate)."""
    par = {}
    for n, v in spec["params"]:
        if n[0] == "a" and n[1:].isdigit():
            if draw(st.booleans()):
                par[n] = draw(st.integers(1, 99)) / 100.0
                if edge and draw(st.integers(0, 3)) == 0:
                    # whole terms vanish from the model
                    par[n] = draw(st.sampled_from([0.0, 1.0]))
        elif n in RANGE and draw(st.integers(0, 2)) == 0:
            lo, hi = RANGE[n]
            par[n] = round(lo + (hi - lo) * draw(st.integers(0, 100)) / 100.0, 6)
    return par


@st.composite
def shock_rows(draw, spec, lo=1, hi=8, top=300, dense=True):
    T = draw(st.integers(lo, hi))
    rows = []
    for t in range(T):
        row = {}
        for s in spec["shocks"]:
            if draw(st.booleans()):
                row[s] = draw(size(top))
        rows.append(row)
    if not any(any(r.values()) for r in rows):
        rows[0][spec["shocks"][0]] = 1.0
    return rows


@st.composite
def a_prior(draw, name, value):
    """A prior for the parameter, in one of the documented forms."""
    if name[0] == "a" and name[1:].isdigit() or name in RANGE and RANGE[name][1] < 1 and RANGE[name][0] < 0.6:
        kind = draw(st.sampled_from(["beta", "beta", "uniform", "normal", "gamma", "inv_gamma"]))
        m = draw(st.integers(30, 70)) / 100.0
        if kind == "uniform":
            body = [0.05, 0.95] if draw(st.booleans()) else [0, 1]
        else:
            body = [m, draw(st.sampled_from([0.05, 0.1, 0.15]))]
        box = [0.01, 0.99]
    elif name.startswith("sig"):
        kind = draw(st.sampled_from(["inv_gamma_dynare", "inv_gamma_dynare", "inv_gamma", "gamma", "uniform"]))
        body = draw(st.sampled_from([[0.5, 2], [0.3, 1], [1, 0.5]]))
        if kind == "inv_gamma":
            body = [body[0], min(body[1], 1.0)]
        if kind == "uniform":
            body = [0.1, 3]
        box = [0.01, 5]
    else:
        lo, hi = RANGE.get(name, (-1, 1))
        kind = draw(st.sampled_from(["normal", "uniform"]))
        m = round(0.5 * (lo + hi), 3)
        body = [m, round((hi - lo) / 12.0, 4)] if kind == "normal" else [lo, hi]
        box = [lo, hi]
    if draw(st.integers(0, 5)) == 0:
        return [kind] + body
    init = draw(st.sampled_from(["None", value]))
    return [init] + box + [kind] + body


@st.composite
def with_prior(draw, spec, lo=1, hi=5, only=None):
    """Give the model a prior section over some of its parameters, in any order."""
    can = [n for n, _ in spec["params"] if n.startswith("sig") or n[0] == "a" and n[1:].isdigit() or n in RANGE and n != "beta"]
    vals = dict(map(tuple, spec["params"]))
    k = draw(st.integers(min(lo, len(can)), min(hi, len(can))))
    names = draw(st.permutations(can))[:k]
    spec["prior"] = {n: draw(a_prior(n, vals[n])) for n in names}
    return spec
