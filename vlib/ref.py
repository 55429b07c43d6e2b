"""Independent reference mathematics (float64 numpy/scipy/mpmath-free).

Written from the documentation, not from glum's code: unit variances, unit
deviances, log-likelihoods, links, the documented objective

    1/2 * sum_i s_i d(y_i, mu_i) / sum_i s_i
      + alpha * l1_ratio * ||P1 w||_1 + 1/2 * alpha * (1 - l1_ratio) * w' P2 w

and its minimum-norm subgradient (the optimality certificate)."""
import numpy as np
from scipy import special


class RefLink:
    def __init__(self, name, p=None):
        self.name, self.p = name, p

    def link(self, mu):
        n = self.name
        if n == "identity":
            return mu
        if n == "log":
            return np.log(mu)
        if n == "logit":
            return np.log(mu) - np.log1p(-mu)
        if n == "cloglog":
            return np.log(-np.log1p(-mu))
        return np.log(mu) if self.p == 1 else mu ** (1 - self.p)

    def inverse(self, eta):
        n = self.name
        if n == "identity":
            return eta
        if n == "log":
            return np.exp(eta)
        if n == "logit":
            return special.expit(eta)
        if n == "cloglog":
            return -np.expm1(-np.exp(eta))
        return np.exp(eta) if self.p == 1 else eta ** (1 / (1 - self.p))

    def d1(self, eta):
        n = self.name
        if n == "identity":
            return np.ones_like(eta)
        if n == "log":
            return np.exp(eta)
        if n == "logit":
            return special.expit(eta) * special.expit(-eta)
        if n == "cloglog":
            return np.exp(eta - np.exp(eta))
        if self.p == 1:
            return np.exp(eta)
        q = 1 / (1 - self.p)
        return q * eta ** (q - 1)

    def d2(self, eta):
        n = self.name
        if n == "identity":
            return np.zeros_like(eta)
        if n == "log":
            return np.exp(eta)
        if n == "logit":
            s, c = special.expit(eta), special.expit(-eta)
            return s * c * (c - s)
        if n == "cloglog":
            return np.exp(eta - np.exp(eta)) * (1 - np.exp(eta))
        if self.p == 1:
            return np.exp(eta)
        q = 1 / (1 - self.p)
        return q * (q - 1) * eta ** (q - 2)


class RefFamily:
    """kind in normal, poisson, gamma, invgauss, tweedie(p), binomial, negbin(theta), ghs"""

    def __init__(self, kind, param=None):
        self.kind, self.param = kind, param
        self.power = {"normal": 0, "poisson": 1, "gamma": 2, "invgauss": 3}.get(
            kind, param if kind == "tweedie" else None)

    def var(self, mu):
        k = self.kind
        if self.power is not None:
            return np.asarray(mu, float) ** self.power
        if k == "binomial":
            return mu * (1 - mu)
        if k == "negbin":
            return mu + self.param * mu ** 2
        return 1 + mu ** 2

    def var_d(self, mu):
        k = self.kind
        if self.power is not None:
            if self.power == 0:
                return np.zeros_like(mu)
            return self.power * mu ** (self.power - 1)
        if k == "binomial":
            return 1 - 2 * mu
        if k == "negbin":
            return 1 + 2 * self.param * mu
        return 2 * mu

    def unit_dev(self, y, mu):
        """2 * int_mu^y (y - t) / v(t) dt (Wooldridge's binomial convention: the
        saturated term is dropped, which only matters for fractional y)."""
        k = self.kind
        p = self.power
        if p is not None:
            if p == 0:
                return (y - mu) ** 2
            if p == 1:
                return 2 * (special.xlogy(y, y / mu) - y + mu)
            if p == 2:
                return 2 * (np.log(mu / y) + y / mu - 1)
            return 2 * (np.maximum(y, 0) ** (2 - p) / ((1 - p) * (2 - p))
                        - y * mu ** (1 - p) / (1 - p) + mu ** (2 - p) / (2 - p))
        if k == "binomial":
            return -2 * (special.xlogy(y, mu) + special.xlog1py(1 - y, -mu))
        if k == "negbin":
            t = self.param
            return 2 * (special.xlogy(y, y / mu)
                        - (y + 1 / t) * (np.log1p(t * y) - np.log1p(t * mu)))
        return 2 * y * (np.arctan(y) - np.arctan(mu)) + np.log((1 + mu ** 2) / (1 + y ** 2))

    def logpdf(self, y, mu, phi, w):
        """log density of y_i with mean mu_i and dispersion phi / w_i."""
        k, p = self.kind, self.power
        if p == 0:
            return -0.5 * (np.log(2 * np.pi * phi / w) + w * (y - mu) ** 2 / phi)
        if p == 1:  # weights as likelihood weights
            return w * (special.xlogy(y, mu) - mu - special.gammaln(y + 1))
        if p == 2:
            a = w / phi
            return a * np.log(a * y / mu) - a * y / mu - np.log(y) - special.gammaln(a)
        if p == 3:
            return -0.5 * (np.log(2 * np.pi * phi / w * y ** 3)
                           + w * (y - mu) ** 2 / (phi * mu ** 2 * y))
        if k == "binomial":
            return w * (special.xlogy(y, mu) + special.xlog1py(1 - y, -mu))
        if k == "negbin":
            r = 1 / self.param
            return w * (special.gammaln(y + r) - special.gammaln(r) - special.gammaln(y + 1)
                        + special.xlogy(y, self.param * mu)
                        - (y + r) * np.log1p(self.param * mu))
        raise NotImplementedError

    def in_range(self, y):
        p, k = self.power, self.kind
        if p is not None:
            if p <= 0:
                return np.isfinite(y)
            if p < 2:
                return (y >= 0) & np.isfinite(y)
            return (y > 0) & np.isfinite(y)
        if k == "binomial":
            return (y >= 0) & (y <= 1)
        if k == "negbin":
            return (y >= 0) & np.isfinite(y)
        return np.isfinite(y)


def default_link(fam):
    if fam.power is not None:
        return RefLink("identity") if fam.power <= 0 else RefLink("log")
    return {"binomial": RefLink("logit"), "negbin": RefLink("log"),
            "ghs": RefLink("identity")}[fam.kind]


def p2_matrix(P2, n):
    import scipy.sparse as sp
    if P2 is None or isinstance(P2, str):
        return np.eye(n)
    if sp.issparse(P2):
        P2 = P2.toarray()
    P2 = np.asarray(P2, float)
    M = np.diag(P2) if P2.ndim == 1 else P2
    return 0.5 * (M + M.T)


def p1_vector(P1, n):
    if P1 is None or isinstance(P1, str):
        return np.ones(n)
    return np.asarray(P1, float)


def objective(X, y, w, off, fam, link, b0, b, alpha, l1, P1, P2, scale=None):
    """The documented objective at (b0, b). scale = column sds if penalties act
    on the scaled coefficients."""
    eta = X @ b + b0 + (0 if off is None else off)
    mu = link.inverse(eta)
    s = w / w.sum()
    bs = b if scale is None else b * scale
    return (0.5 * np.sum(s * fam.unit_dev(y, mu)) + alpha * l1 * np.sum(P1 * np.abs(bs))
            + 0.5 * alpha * (1 - l1) * bs @ P2 @ bs)


def col_stats(X, w):
    s = w / w.sum()
    m = s @ X
    v = np.maximum(s @ (X * X) - m * m, 0.0)
    v2 = s @ ((X - m) ** 2)
    return m, np.sqrt(np.where(v2 >= 0, v2, v))


def min_subgrad(X, y, w, off, fam, link, b0, b, alpha, l1, P1, P2, fit_intercept,
                scale=None, lb=None, ub=None, zero_tol=0.0, bound_tol=0.0):
    """Minimum-norm subgradient of the documented objective at (b0, b), in the
    coordinates with centred columns (and scaled ones when scale is given).

    Returns (vector, floor) where floor bounds the rounding error of the
    evaluation componentwise (so callers never ask for more than float64)."""
    eta = X @ b + b0 + (0 if off is None else off)
    mu = link.inverse(eta)
    s = w / w.sum()
    d1 = link.d1(eta)
    v = fam.var(mu)
    with np.errstate(all="ignore"):
        if fam.kind == "binomial" and link.name == "logit":
            d1v, res = 1.0, y - mu
        elif fam.kind == "binomial" and link.name == "cloglog":
            d1v = np.exp(eta) / mu           # = d1 / v, finite when mu rounds to 1
            res = (y - 1) + np.exp(-np.exp(eta))
        else:
            d1v, res = d1 / v, y - mu
        r = s * d1v * res
        rabs = s * np.abs(d1v) * (np.abs(y) + np.abs(mu))
        curv = s * d1 * d1v
    r = np.where(s == 0, 0.0, r)
    rabs = np.where(s == 0, 0.0, rabs)
    Xc = X - (s @ X) if fit_intercept else X
    sc = np.ones(X.shape[1]) if scale is None else scale
    Xs = Xc / sc
    bs = b * sc
    g = -(r @ Xs) + alpha * (1 - l1) * (P2 @ bs)
    floor = np.finfo(float).eps * (
        (rabs @ np.abs(Xs)) * 64
        + (np.abs(Xs).T @ (np.where(s == 0, 0.0, curv) * (np.abs(X) @ np.abs(b) + abs(b0)))) * 8
        + alpha * np.abs(P2) @ np.abs(bs) * 16)
    l = alpha * l1 * P1
    zero = np.abs(bs) <= zero_tol
    sub = np.where(zero, np.sign(g) * np.maximum(np.abs(g) - l, 0.0), g + np.sign(bs) * l)
    if lb is not None:
        at = bs <= lb * sc + bound_tol
        sub = np.where(at & (sub > 0), 0.0, sub)
    if ub is not None:
        at = bs >= ub * sc - bound_tol
        sub = np.where(at & (sub < 0), 0.0, sub)
    if fit_intercept:
        sub = np.concatenate([[-r.sum()], sub])
        floor = np.concatenate([[np.finfo(float).eps * 64 * rabs.sum()], floor])
    return sub, floor
