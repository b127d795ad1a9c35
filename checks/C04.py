"""The search for the binding regime is complete and picks the lowest (l, k)."""
import hypothesis.strategies as st
import numpy as np

from vlib import mods, cases
from vlib.core import Violation, expect, expect_close, must_work
from vlib.part import Part
from vlib.ref import Ref
from checks.C03 import usable, big, TOL, warm  # noqa

ASSUMPTIONS = [
    "steps in which any condition of a candidate up to the chosen one is decided by less than 1e-6 of the path's size are not judged",
    "a dip first expected exactly one period after l_max may be taken into account or not",
]


@st.composite
def case(draw):
    spec = draw(cases.model(("gen", "nk")))
    seqs = []
    for _ in range(draw(st.integers(1, 5))):
        seqs.append(
            {
                "par": draw(cases.params(spec)),
                "rows": draw(cases.shock_rows(spec, 1, 5, top=draw(st.sampled_from([150, 400, 900])))),
                "lk": draw(
                    st.sampled_from(
                        [None, None, [2, 2], [2, 5], [4, 10], [6, 6], [2, 17], [3, 1], [2, 30], [2, 0], [1, 0]]
                    )
                ),
            }
        )
    return {"spec": spec, "seqs": seqs}


def expected(ref, x, e, L, K):
    """Set of admissible outcomes {(l, k) or None (flag)}, or "?" if too close."""
    # nothing expected to bind up to and including the horizon
    T = L + 2
    _, S = ref.path(x, e, 0, 0, T)
    X, _ = ref.path(x, e, 0, 0, T)
    scale = 1 + np.max(np.abs(X)) + abs(ref.x_bar)
    gap = S - ref.x_bar
    if np.any(np.abs(gap[: L + 2]) < TOL * scale):
        return "?"
    out = set()
    if np.all(gap[: L + 1] > 0):
        out.add((0, 0))
        if gap[L + 1] > 0:
            return out
    found = False
    for l in range(L + 2):
        for k in range(1, K + 1):
            if big(ref, l, k):
                return "?"
            prom, _, scale, _, _ = ref.checks(x, e, l, k, 0)
            if np.all(prom > TOL * scale):
                out.add((l, k))
                found = True
            elif np.any(prom < -TOL * scale):
                continue
            else:
                return "?"
            if found:
                break
        if found:
            break
    if not found:
        out.add(None)
    elif l == L + 1:
        # found only beyond the documented horizon
        out.add(None)
    return out


def run(case, rec):
    spec = case["spec"]
    m = mods.read(spec)
    names = spec["vars"]
    hit = 0
    for seq in case["seqs"]:
        ref = Ref(spec, seq["par"])
        if not usable(ref):
            continue
        m_ = m
        if seq["lk"]:
            L, K = seq["lk"]
            kw = {"l_max": L, "k_max": K}
        else:
            # the documented defaults, on an instance that never saw others
            L, K = 3, 17
            m_ = mods.read(spec, nocache=False)
            kw = {}
        with must_work("set_par on a determinate model"):
            mods.setp(m_, seq["par"], **kw)
        x = mods.zero(m_)
        xr = np.zeros(ref.n)
        for t, row in enumerate(seq["rows"]):
            e = np.array([row.get(s, 0.0) for s in ref.shocks])
            with must_work("t_func"):
                x, (l, k), flag = m_.t_func(x, mods.shockvec(m_, row), return_k=True)
            if big(ref, l, k):
                break
            want = expected(ref, xr, e, L, K)
            if want == "?":
                rec.label("close")
            else:
                got = None if flag else (int(l), int(k))
                if got not in want:
                    raise Violation(
                        "period %d with l_max=%d, k_max=%d: got %s, expected %s"
                        % (
                            t,
                            L,
                            K,
                            "no solution (flag %s)" % flag if got is None else got,
                            sorted(map(str, want)),
                        )
                    )
                if (0, 0) not in want:
                    hit += 1
                rec.label("flag" if got is None else "l%d" % l if k else "slack")
                if got is not None and k > 1:
                    rec.label("k>1")
            xr = ref.step(xr, e, int(l), int(k))
    return "binding" if hit else False


PARTS = [
    Part(
        "search",
        case,
        run,
        "random models, parameters, shock sequences and (l_max, k_max); every candidate regime is enumerated by an independent solver; non-trivial: at least one period in which the unconstrained path is not an equilibrium",
        quick=800,
    ),
]
