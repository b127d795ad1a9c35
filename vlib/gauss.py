"""The linear Gaussian state space of a reference model, without recursions:
joint distributions of whole paths."""
import numpy as np
import scipy.linalg as sl

from .modelgen import ev


def obs_matrix(ref, names):
    """y = H x + h, rows in the order of `names`."""
    spec = ref.spec
    H = np.zeros((len(names), ref.n))
    h = np.zeros(len(names))
    for name, terms, const in spec["obs"]:
        i = names.index(name)
        for e, v in terms:
            H[i, ref.ix[v]] += ev(e, ref.env)
        h[i] = ev(const, ref.env) if const is not None else 0.0
    return H, h


class Joint:
    """x_0..x_{T-1} started from the stationary distribution, and y = Hx + h + v."""

    def __init__(self, ref, names, R, T, init_cov=None):
        P, Q = ref.linear()
        s = np.array([ref.env[ref.spec["sigs"][z]] for z in ref.shocks])
        V = Q @ np.diag(s**2) @ Q.T
        n = ref.n
        if init_cov is None:
            S = sl.solve_discrete_lyapunov(P, V)
        else:
            S = P @ init_cov @ P.T + V
        H, h = obs_matrix(ref, names)
        self.P, self.Q, self.H, self.h, self.s = P, Q, H, h, s
        # covariance of the stacked states
        C = np.zeros((T, T, n, n))
        D = S
        for t in range(T):
            C[t, t] = D
            M = D
            for u in range(t + 1, T):
                M = P @ M
                C[u, t] = M
                C[t, u] = M.T
            D = P @ D @ P.T + V
        self.C = C
        self.T, self.n = T, n
        q = len(names)
        Sy = np.zeros((T, q, T, q))
        for t in range(T):
            for u in range(T):
                Sy[t, :, u, :] = H @ C[t, u] @ H.T
            Sy[t, :, t, :] += R
        self.Sy = Sy.reshape(T * q, T * q)
        self.q = q

    def cond(self):
        return np.linalg.cond(self.Sy)

    def ll(self, Y):
        d = (np.asarray(Y) - self.h).reshape(-1)
        L = np.linalg.cholesky(self.Sy)
        z = sl.solve_triangular(L, d, lower=True)
        return -0.5 * (z @ z) - np.sum(np.log(np.diag(L))) - 0.5 * len(d) * np.log(2 * np.pi)

    def smooth(self, Y):
        """E[x_t | all y] and the covariances."""
        d = (np.asarray(Y) - self.h).reshape(-1)
        K = np.zeros((self.T, self.n, self.T, self.q))
        for t in range(self.T):
            for u in range(self.T):
                K[t, :, u, :] = self.C[t, u] @ self.H.T
        K = K.reshape(self.T * self.n, self.T * self.q)
        cf = sl.cho_factor(self.Sy)
        m = (K @ sl.cho_solve(cf, d)).reshape(self.T, self.n)
        cov = np.empty((self.T, self.n, self.n))
        for t in range(self.T):
            Kt = K[t * self.n : (t + 1) * self.n]
            cov[t] = self.C[t, t] - Kt @ sl.cho_solve(cf, Kt.T)
        return m, cov

    def filtered(self, Y):
        """E[x_t | y up to t]."""
        out = np.empty((self.T, self.n))
        Y = np.asarray(Y)
        for t in range(self.T):
            k = (t + 1) * self.q
            d = (Y[: t + 1] - self.h).reshape(-1)
            K = np.hstack([self.C[t, u] @ self.H.T for u in range(t + 1)])
            out[t] = K @ np.linalg.solve(self.Sy[:k, :k], d)
        return out

    def predicted_spectrum(self, Y=None):
        """Relative singular values of Cov(x_{t+1} | y up to t), all t."""
        out = []
        for t in range(self.T - 1):
            k = (t + 1) * self.q
            K = np.hstack([self.C[t + 1, u] @ self.H.T for u in range(t + 1)])
            S = self.C[t + 1, t + 1] - K @ np.linalg.solve(self.Sy[:k, :k], K.T)
            w = np.linalg.svd(S, compute_uv=False)
            out.append(w / w[0])
        return np.array(out)
