"""How far apart may two correct fits of the same problem be?

A fit with gradient tolerance t leaves a (minimum-norm) subgradient of norm <= t in
the coordinates the solver works in (unit-variance, and with an intercept centred,
columns).  On a strongly convex objective with smallest Hessian eigenvalue lam, two
such points are at most (tA + tB) / lam apart; we allow 4x that (the Hessian is taken
at one of the points) plus the propagated rounding error of the gradient."""
import numpy as np

from . import ref
from .harness import Skip

EPS32 = float(np.finfo(np.float32).eps / np.finfo(np.float64).eps)


def std_cols(X, w, fit_intercept):
    m, sd = ref.col_stats(X, w)
    small = sd < 1e-6 * np.maximum(1.0, np.abs(X).max(0, initial=0))
    sd = np.where(small, 1.0, sd)
    if not fit_intercept:
        m = np.zeros_like(m)
    return m, sd


def weight_hess(y, w, eta, fam, link):
    """Per-row second derivative of half the weighted mean deviance in eta."""
    mu = link.inverse(eta)
    s = w / w.sum()
    d1, d2 = link.d1(eta), link.d2(eta)
    v, vd = fam.var(mu), fam.var_d(mu)
    with np.errstate(all="ignore"):
        h = d1 * d1 / v - (y - mu) * (d2 / v - d1 * d1 * vd / v ** 2)
        if fam.kind == "binomial" and link.name == "logit":
            h = mu * (1 - mu)
    return np.where(s == 0, 0.0, s * h)


def problem_geometry(X, y, w, off, fam, link, b0, b, alpha, l1, P1, P2, fit_intercept,
                     scale=False):
    """(m, sd, lam, floor): column means/sds of the solver's coordinates, smallest
    Hessian eigenvalue there, and the summed rounding floor of the gradient."""
    m, sd = std_cols(X, w, fit_intercept)
    eta = X @ b + b0 + (0 if off is None else off)
    h = weight_hess(y, w, eta, fam, link)
    Z = (X - m) / sd
    P = P2 if scale else P2 / sd[:, None] / sd[None, :]
    if fit_intercept:
        Z1 = np.hstack([np.ones((len(Z), 1)), Z])
    else:
        Z1 = Z
    H = (Z1 * h[:, None]).T @ Z1
    k = int(fit_intercept)
    H[k:, k:] += alpha * (1 - l1) * P
    if not np.all(np.isfinite(H)):
        raise Skip("non-finite Hessian")
    lam = np.linalg.eigvalsh(H)[0]
    sub, floor = ref.min_subgrad(X, y, w, off, fam, link, b0, b, alpha, l1, P1, P2,
                                 fit_intercept, sd if scale else None)
    if not scale:
        floor = floor.copy()
        floor[k:] /= sd
    return m, sd, float(lam), float(floor.sum())


class Margin:
    """Allowed distance between two fits with tolerances ta, tb (solver norm)."""

    def __init__(self, geo, ta, tb, single=False, lam_min=1e-5, dmax=0.05, fit_intercept=True):
        m, sd, lam, floor = geo
        if not lam > lam_min:
            raise Skip("objective (nearly) flat at the solution")
        f = floor * (EPS32 if single else 1.0)
        self.delta = 4 * (ta + tb + f) / lam
        if self.delta > dmax:
            raise Skip("margin too wide to be informative")
        self.coef = self.delta / sd
        self.intercept = self.delta * (1 + np.sum(np.abs(m) / sd)) if fit_intercept else 0.0
        self.m, self.sd = m, sd
        self.rel = 1e-5 if single else 1e-10

    def coef_tol(self, b):
        return self.coef + self.rel * np.abs(b)

    def int_tol(self, b0, b):
        return self.intercept + self.rel * (abs(b0) + np.sum(np.abs(self.m * b)))

    def eta_tol(self, X):
        Z = (X - self.m) / self.sd
        return self.delta * (1 + np.sqrt((Z * Z).sum(1))) + 1e-9


def compare(mon, msg, est_a, est_b, mar, X=None, **detail):
    """Coefficients and intercept of two fitted estimators agree within mar."""
    return compare_coefs(mon, msg, float(est_a.intercept_), np.asarray(est_a.coef_, float),
                         float(est_b.intercept_), np.asarray(est_b.coef_, float), mar, **detail)


def compare_coefs(mon, msg, b0a, ba, b0b, bb, mar, **detail):
    mon.oracle += 1
    if ba.shape != bb.shape:
        mon.violation(msg + ": different number of coefficients", a=ba, b=bb, **detail)
        return False
    bad = ~(np.abs(ba - bb) <= mar.coef_tol(bb))
    badi = not abs(b0a - b0b) <= mar.int_tol(b0b, bb) + mar.coef_tol(bb) @ np.abs(mar.m)
    if bad.any() or badi:
        mon.violation(msg, a=[b0a, *ba], b=[b0b, *bb], tol=mar.coef_tol(bb).tolist(),
                      tol_intercept=mar.int_tol(b0b, bb), delta=mar.delta, **detail)
        return False
    return True


def solver_tol(solver, t, X, y, obj, p):
    """Bound on the l2 norm of the final gradient in solver coordinates."""
    if solver == "closed-form":
        return 1e-10 * (1 + np.abs(y).max())
    if solver == "lbfgs":
        return np.sqrt(p + 1) * max(t, 2e-5 * max(1.0, abs(obj)))
    if solver == "trust-constr":
        return np.sqrt(p + 1) * max(10 * t, 2e-5)
    return t


class BaseFit:
    """A reference fit at a tight tolerance plus the geometry needed to bound how far
    any other correct fit of an equivalent problem may be from it.

    X, y, w, off are float64 arrays describing the problem in the coordinates used for
    comparison; `est` was fitted on them (or on an equivalent description)."""

    def __init__(self, est, rec, fc, X, y, w, off, pen, fit_intercept, scale, tol,
                 lam_min=1e-5, b0=None, b=None):
        from . import gen
        if not gen.converged(rec):
            raise Skip("reference fit warned")
        self.est, self.fc, self.X, self.y, self.off = est, fc, X, np.asarray(y, float), off
        self.w = np.ones(len(y)) if w is None else np.asarray(w, float)
        self.fit_intercept, self.scale, self.tol = fit_intercept, scale, tol
        p = X.shape[1]
        a = pen.get("alpha")
        self.a, self.l1 = (0.0 if a is None else a), pen.get("l1_ratio", 0.0)
        self.P1, self.P2 = ref.p1_vector(pen.get("P1"), p), ref.p2_matrix(pen.get("P2"), p)
        self.fam, self.link = fc.ref_for(est), fc.reflink
        self.b0 = float(est.intercept_) if b0 is None else b0
        self.b = np.asarray(est.coef_, float) if b is None else b
        if not (np.all(np.isfinite(self.b)) and np.isfinite(self.b0)):
            raise Skip("non-finite reference")
        sc = ref.col_stats(X, self.w)[1] if scale else None
        if scale and sc.min() <= 1e-9 * np.abs(X).max():
            raise Skip("constant column with scaling")
        self.eta = X @ self.b + self.b0 + (0 if off is None else off)
        if fc.name == "binomial/cloglog" and np.abs(self.eta).max() > 3.4:
            raise Skip("cloglog saturated")
        self.geo = problem_geometry(X, self.y, self.w, off, self.fam, self.link, self.b0, self.b,
                                    self.a, self.l1, self.P1, self.P2, fit_intercept, scale)
        self.obj = ref.objective(X, self.y, self.w, off, self.fam, self.link, self.b0, self.b,
                                 self.a, self.l1, self.P1, self.P2, sc)
        self.lam_min = lam_min

    def margin(self, solver="irls-cd", tol=None, single=False, dmax=0.05, extra=0.0):
        t = solver_tol(solver, self.tol if tol is None else tol, self.X, self.y, self.obj,
                       self.X.shape[1])
        return Margin(self.geo, self.tol, t + extra, single, self.lam_min, dmax,
                      self.fit_intercept)

    def mu_band(self, mar, X=None, off=None):
        """Means allowed on rows X (default: the training rows)."""
        X = self.X if X is None else X
        off = self.off if off is None else off
        eta = X @ self.b + self.b0 + (0 if off is None else off)
        et = mar.eta_tol(X)
        with np.errstate(all="ignore"):
            lo, hi = self.link.inverse(eta - et), self.link.inverse(eta + et)
        lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
        slack = 1e-9 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-12
        return lo - slack, hi + slack

    def check_mu(self, mon, msg, mu, mar, X=None, off=None, **detail):
        if self.fc.limited:
            return True
        lo, hi = self.mu_band(mar, X, off)
        mu = np.asarray(mu, float)
        ok = mu.shape == lo.shape and bool(np.all((mu >= lo) & (mu <= hi)))
        if not ok and mu.shape == lo.shape:
            j = int(np.argmax(np.nan_to_num(np.maximum(lo - mu, mu - hi), nan=np.inf)))
            detail.update(got=mu[j], lo=lo[j], hi=hi[j], row=j)
        return mon.check(ok, msg, **detail)


def guarded_fit(est, X, y, w, off, fc, **kw):
    """Fit; inputs whose link leaves the mean's domain on the way are out of scope."""
    from . import gen
    try:
        return gen.fit(est, X, y, w, off, **kw)
    except ValueError as e:
        if fc.limited and ("infs or NaNs" in str(e) or isinstance(e, np.linalg.LinAlgError)):
            raise Skip("left the link's domain and said so")
        raise


def kkt(X, y, w, off, fam, link, b0, b, a, l1, P1, P2, fit_intercept, scale, solver, tol):
    """(residual, limit) of the documented optimality conditions at (b0, b) in the norm
    and coordinates (unit-variance columns) the solver's tolerance refers to."""
    sc = None
    if scale:
        _, sc = ref.col_stats(X, w)
        if sc.min() <= 1e-12 * np.abs(X).max():
            raise Skip("constant column with scaling")
    sub, floor = ref.min_subgrad(X, y, w, off, fam, link, b0, b, a, l1, P1, P2,
                                 fit_intercept, sc)
    if not scale:
        _, sd = ref.col_stats(X, w)
        sd = np.where(sd < 1e-6, 1.0, sd)
        k = 1 if fit_intercept else 0
        sub[k:] /= sd
        floor[k:] /= sd
    t = tol if tol is not None else (1e-8 if solver == "trust-constr" else 1e-4)
    if solver == "closed-form":
        lim, got = 1e-9 * (1 + np.abs(y).max()) * (1 + np.abs(X).max()), np.abs(sub).max()
    elif solver == "lbfgs":
        obj = ref.objective(X, y, w, off, fam, link, b0, b, a, l1, P1, P2, sc)
        lim = max(t * 1.01, 2e-5 * max(1.0, abs(obj)) * (1 + np.abs(X).max()))
        got = np.abs(sub).max()
    elif solver == "trust-constr":
        lim, got = max(10 * t, 1e-4 * (1 + np.abs(X).max())), np.abs(sub).max()
    else:
        lim, got = t * 1.001, np.abs(sub).sum()
    return float(got), float(lim + 4 * floor.sum())


def cloglog_saturated(fc, X, b0, b, off, w):
    if fc.name != "binomial/cloglog":
        return False
    eta = X @ b + b0 + (0 if off is None else off)
    return np.abs(eta[w > 0]).max() > 3.4


def null_mu(y, w):
    return float(np.sum(w * y) / np.sum(w))
