"""Prior densities from their textbook formulas (mean and standard deviation given)."""
import math

from scipy.optimize import brentq

lg = math.lgamma


def norm(x, m, s):
    return -0.5 * ((x - m) / s) ** 2 - math.log(s) - 0.5 * math.log(2 * math.pi)


def dyn(m, s):
    """(S, nu) of an inverse gamma of type 1 with this mean and std."""

    def f(nu):
        # var / mean^2 for S = 1
        v = 1.0 / (nu - 2)
        mu = math.exp(-0.5 * math.log(2.0) + lg((nu - 1) / 2) - lg(nu / 2))
        return math.log((v - mu * mu) / mu / mu) - 2 * math.log(s / m)

    nu = brentq(f, 2 + 1e-10, 1e6, xtol=1e-13, rtol=1e-14)
    S = (s * s + m * m) * (nu - 2)
    return S, nu


def logpdf(kind, x, m, s):
    if kind == "uniform":
        return -math.log(s - m) if m <= x <= s else -math.inf
    if kind == "normal":
        return norm(x, m, s)
    if kind == "gamma":
        if x <= 0:
            return -math.inf
        b = s * s / m
        a = m / b
        return (a - 1) * math.log(x) - x / b - lg(a) - a * math.log(b)
    if kind == "beta":
        if not 0 < x < 1:
            return -math.inf
        k = m * (1 - m) / s / s - 1
        a, b = m * k, (1 - m) * k
        return (a - 1) * math.log(x) + (b - 1) * math.log(1 - x) + lg(a + b) - lg(a) - lg(b)
    if kind == "inv_gamma":
        if x <= 0:
            return -math.inf
        a = 2 + m * m / s / s
        b = m * (a - 1)
        return a * math.log(b) - lg(a) - (a + 1) * math.log(x) - b / x
    if kind == "inv_gamma_dynare":
        if x <= 0:
            return -math.inf
        S, nu = dyn(m, s)
        return math.log(2) - lg(nu / 2) - nu / 2 * math.log(2 / S) - (nu + 1) * math.log(x) - 0.5 * S / x / x
    raise KeyError(kind)


def lprior(prior, vec):
    out = 0.0
    for (n, p), x in zip(prior.items(), vec):
        k, m, s = p[-3:]
        out += logpdf(k, x, m, s)
    return out


def forward(kind, z):
    """From the sampler's unbounded space to parameter values."""
    if kind in ("gamma", "inv_gamma", "inv_gamma_dynare"):
        return math.exp(z)
    if kind == "beta":
        return 1 / (1 + math.exp(-z))
    return z


def backward(kind, x):
    if kind in ("gamma", "inv_gamma", "inv_gamma_dynare"):
        return math.log(x)
    if kind == "beta":
        return math.log(x / (1 - x))
    return x
