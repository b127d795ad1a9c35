"""Reference semantics of a generated model, independent of pydsge.

Everything is done in the space of the model's own variables (plus the lag and
lead chains built here), from the spec and parameter values alone.
"""
import numpy as np
import scipy.linalg as sl

from .modelgen import ev


class Ref:
    """First order form  A x(+1) + B x + C x(-1) + D e = 0  for all equations but
    the constraint, and the rule  c_t = rb.x + rc.x(-1) + rd.e  for the bound
    variable c."""

    def __init__(self, spec, par=None):
        self.spec = spec
        env = {n: float(v) for n, v in spec["params"]}
        if par is not None:
            env.update(par)
        self.par = dict(env)
        env["#ufuncs"] = spec.get("ufuncs", 1)
        todo = list(spec["funcs"])
        while todo:
            rest = []
            for n, e in todo:
                try:
                    env[n] = ev(e, env)
                except KeyError:
                    rest.append([n, e])
            if len(rest) == len(todo):
                raise RuntimeError("circular functions in a generated model")
            todo = rest
        self.env = env
        self.x_bar = env["x_bar"]
        names = list(spec["vars"])
        shocks = list(spec["shocks"])
        rows = [(eq["lhs"], eq["terms"]) for eq in spec["eqs"]]
        # chains
        lead = {}
        lag = {}
        for lhs, terms in rows + [(spec["cvar"], spec["con"])]:
            for e, s, d in terms:
                lead[s] = max(lead.get(s, 0), d)
                lag[s] = max(lag.get(s, 0), -d)
        chain = []  # (name, base, baseshift)
        for s in shocks:
            if lag.get(s, 0) > 0:
                chain.append(("#s0_" + s, s, 0))
                for i in range(1, lag[s]):
                    chain.append(("#s%d_%s" % (i, s), "#s%d_%s" % (i - 1, s), -1))
        for v in names:
            for i in range(1, lag.get(v, 0)):
                base = v if i == 1 else "#l%d_%s" % (i - 1, v)
                chain.append(("#l%d_%s" % (i, v), base, -1))
            for i in range(1, lead.get(v, 0)):
                base = v if i == 1 else "#f%d_%s" % (i - 1, v)
                chain.append(("#f%d_%s" % (i, v), base, +1))
        self.names = names + [c[0] for c in chain]
        self.shocks = shocks
        ix = {v: i for i, v in enumerate(self.names)}
        sx = {s: i for i, s in enumerate(shocks)}
        n, m = len(self.names), len(shocks)
        self.n, self.m, self.ix, self.sx = n, m, ix, sx
        self.c = ix[spec["cvar"]]
        A = np.zeros((n - 1, n))
        B = np.zeros((n - 1, n))
        C = np.zeros((n - 1, n))
        D = np.zeros((n - 1, m))

        def put(i, s, d, val):
            if s in sx:
                if d == 0:
                    D[i, sx[s]] += val
                else:
                    C[i, ix["#s%d_%s" % (-d - 1, s)]] += val
                return
            if d == 0:
                B[i, ix[s]] += val
            elif d == 1:
                A[i, ix[s]] += val
            elif d == -1:
                C[i, ix[s]] += val
            elif d > 1:
                A[i, ix["#f%d_%s" % (d - 1, s)]] += val
            else:
                C[i, ix["#l%d_%s" % (-d - 1, s)]] += val

        i = 0
        for lhs, terms in rows:
            put(i, lhs, 0, 1.0)
            for e, s, d in terms:
                put(i, s, d, -ev(e, env))
            i += 1
        for name, base, sh in chain:
            put(i, name, 0, 1.0)
            put(i, base, sh, -1.0)
            i += 1
        assert i == n - 1, (i, n)
        self.A, self.B, self.C, self.D = A, B, C, D
        self.rb = np.zeros(n)
        self.rc = np.zeros(n)
        self.rd = np.zeros(m)
        for e, s, d in spec["con"]:
            v = ev(e, env)
            if s in sx:
                if d == 0:
                    self.rd[sx[s]] += v
                else:
                    self.rc[ix["#s%d_%s" % (-d - 1, s)]] += v
            elif d == 0:
                self.rb[ix[s]] += v
            elif d == -1:
                self.rc[ix[s]] += v
            elif d < -1:
                self.rc[ix["#l%d_%s" % (-d - 1, s)]] += v
            else:
                raise AssertionError("constraint dates")
        self.H = np.zeros((len(spec["obs"]), n))
        self.h = np.zeros(len(spec["obs"]))
        for i, (_, terms, const) in enumerate(spec["obs"]):
            for e, v in terms:
                self.H[i, ix[v]] += ev(e, env)
            self.h[i] = ev(const, env)
        self.sig = np.array([env[spec["sigs"][s]] for s in shocks])
        # full systems
        row = -self.rb.copy()
        row[self.c] += 1.0
        self.Au = np.vstack((A, np.zeros(n)))
        self.Bu = np.vstack((B, row))
        self.Cu = np.vstack((C, -self.rc))
        self.Du = np.vstack((D, -self.rd))
        row = np.zeros(n)
        row[self.c] = 1.0
        self.Bb = np.vstack((B, row))
        self.Cb = np.vstack((C, np.zeros(n)))
        self.Db = np.vstack((D, np.zeros(m)))
        self.cb = np.zeros(n)
        self.cb[-1] = -self.x_bar
        self._tab = {}

    # ------------------------------------------------------------ linear RE
    def classify(self, margin=1e-4):
        """'det', 'indet', 'expl' or 'edge' (too close to call)."""
        n = self.n
        # [[A 0],[0 I]] z(+1) = [[-B -C],[I 0]] z
        G = np.block([[self.Au, np.zeros((n, n))], [np.zeros((n, n)), np.eye(n)]])
        F = np.block([[-self.Bu, -self.Cu], [np.eye(n), np.zeros((n, n))]])
        SS, TT, Q, Z = sl.qz(F, G, output="complex")
        al, be = np.diag(SS), np.diag(TT)
        if np.any((np.abs(al) < 1e-9) & (np.abs(be) < 1e-9)):
            return "edge"
        mod = np.abs(al) / np.maximum(np.abs(be), 1e-300)
        if np.any(np.abs(mod - 1) < margin):
            return "edge"
        ns = int(np.sum(mod < 1))
        if ns == n:
            return "det"
        return "indet" if ns > n else "expl"

    def linear(self):
        """P, Q with x = P x(-1) + Q e, by generalised Schur."""
        if hasattr(self, "P"):
            return self.P, self.Q
        n = self.n
        G = np.block([[self.Au, np.zeros((n, n))], [np.zeros((n, n)), np.eye(n)]])
        F = np.block([[-self.Bu, -self.Cu], [np.eye(n), np.zeros((n, n))]])
        SS, TT, al, be, Q, Z = sl.ordqz(F, G, sort="iuc", output="complex")
        Z11 = Z[:n, :n]
        Z21 = Z[n:, :n]
        if np.linalg.cond(Z21) > 1e10:
            raise ArithmeticError("ill-conditioned reference solution")
        P = np.real(Z11 @ np.linalg.inv(Z21))
        M = self.Bu + self.Au @ P
        res = self.Au @ P @ P + self.Bu @ P + self.Cu
        if np.max(np.abs(res)) > 1e-8 * (1 + np.max(np.abs(P)) ** 2):
            raise ArithmeticError("reference solution is not accurate")
        self.P = P
        self.Q = -np.linalg.solve(M, self.Du)
        return self.P, self.Q

    # --------------------------------------------------------- piecewise path
    def rule(self, l, k):
        """(P, Q, c): x_t = P x_{t-1} + Q e + c when the constraint is expected
        to bind from t+l to t+l+k-1 and never otherwise."""
        key = (l, k)
        if key in self._tab:
            return self._tab[key]
        if k == 0:
            P, Q = self.linear()
            out = (P, Q, np.zeros(self.n))
        elif l > 0:
            P1, _, c1 = self.rule(l - 1, k)
            M = self.Bu + self.Au @ P1
            out = (
                -np.linalg.solve(M, self.Cu),
                -np.linalg.solve(M, self.Du),
                -np.linalg.solve(M, self.Au @ c1),
            )
        else:
            P1, _, c1 = self.rule(0, k - 1)
            M = self.Bb + self.Au @ P1
            out = (
                -np.linalg.solve(M, self.Cb),
                -np.linalg.solve(M, self.Db),
                -np.linalg.solve(M, self.Au @ c1 + self.cb),
            )
        self._tab[key] = out
        return out

    def step(self, x, e, l, k):
        P, Q, c = self.rule(l, k)
        return P @ x + Q @ e + c

    def shadow(self, x, x1, e):
        return self.rb @ x + self.rc @ x1 + self.rd @ e

    def path(self, x, e, l, k, T):
        """states x_0..x_{T-1} and rule values s_0..s_{T-1} under (l, k)."""
        X = np.empty((T, self.n))
        S = np.empty(T)
        e = np.asarray(e, float)
        for t in range(T):
            if l - t >= 0:
                lk = (l - t, k)
            else:
                lk = (0, max(k + l - t, 0))
            xn = self.step(x, e, *lk)
            S[t] = self.shadow(xn, x, e)
            X[t] = xn
            x = xn
            e = np.zeros(self.m)
        return X, S

    def checks(self, x, e, l, k, horizon):
        """Signed slacks (positive: fulfilled) of the equilibrium conditions of
        (l, k): for the periods the solution method promises to check, and for
        every period up to the horizon."""
        T = max(l + k + 1, horizon)
        X, S = self.path(x, e, l, k, T)
        gap = S - self.x_bar
        sl_all = np.where(
            (np.arange(T) >= l) & (np.arange(T) < l + k), -gap, gap
        )
        if k == 0:
            prom = gap[: horizon]
        else:
            idx = {l, l + k - 1, l + k}
            if l:
                idx |= {0, l - 1}
            prom = sl_all[sorted(idx)]
        scale = 1 + np.max(np.abs(X)) + abs(self.x_bar)
        return prom, sl_all, scale, X, S

    def byname(self, x, names):
        return np.array([x[self.ix[v]] for v in names])
