"""C07: family kernels equal their mathematical definitions."""
import numpy as np
from scipy import special

from vlib import harness
from vlib.harness import Skip

PROPERTY = "C07"
RULE = ("every family (all dedicated ones, Tweedie powers in and between their ranges, negative "
        "binomial thetas) on random and extreme targets/means: unit functions, totals, line-search "
        "kernel, row-wise gradient/Hessian, log-likelihood and dispersion, in float64 and float32, "
        "contiguous, strided, reversed and read-only, through fast and generic links, against "
        "extended-precision formulas; non-trivial = values compared; distinct = family, quantity, "
        "dtype, layout, link, weights, magnitude band")
MINIMUM = {"quick": {"oracle": 60000, "states": 3000, "kernel:eta_mu": 2500, "kernel:rows": 2500,
                     "kernel:ll": 1500, "kernel:ll-small-dispersion": 100, "kernel:disp": 2500},
           "thorough": {"oracle": 600000, "states": 5000}}
LD = np.longdouble

FAMS = [("normal", None), ("poisson", None), ("gamma", None), ("invgauss", None),
        ("binomial", None), ("ghs", None), ("negbin", 1.0), ("negbin", 0.1), ("negbin", 3),
        ("negbin", 7.25), ("tweedie", 0), ("tweedie", 1), ("tweedie", 2), ("tweedie", 3),
        ("tweedie", 1.5), ("tweedie", 1.05), ("tweedie", 1.9), ("tweedie", 1.3),
        ("tweedie", 2.5), ("tweedie", 4), ("tweedie", 3.5), ("tweedie", -1), ("tweedie", -0.5),
        ("tweedie", 0.0), ("tweedie", 1.0), ("tweedie", 2.0), ("tweedie", 3.0)]


def plan(tier, seed):
    n = 45000 if tier == "quick" else 400000
    return [{"seed": seed, "i": i} for i in range(n)]


def make(kind, par):
    import glum
    return {"normal": glum.NormalDistribution, "poisson": glum.PoissonDistribution,
            "gamma": glum.GammaDistribution, "invgauss": glum.InverseGaussianDistribution,
            "binomial": glum.BinomialDistribution, "ghs": glum.GeneralizedHyperbolicSecant}[kind]() \
        if par is None else {"negbin": glum.NegativeBinomialDistribution,
                             "tweedie": glum.TweedieDistribution}[kind](par)


def power_of(kind, par):
    return {"normal": 0.0, "poisson": 1.0, "gamma": 2.0, "invgauss": 3.0,
            "tweedie": None if par is None else float(par)}.get(kind)


class Ref:
    """Extended-precision formulas; every total comes with the sum of |terms|."""

    def __init__(self, kind, par):
        self.kind, self.par, self.p = kind, par, power_of(kind, par)
        if self.p is not None and not isinstance(par, int) and par is not None:
            self.p = float(np.float32(par))     # documented single-precision storage
        if kind == "negbin":
            self.t = LD(float(par) if isinstance(par, int) else float(np.float32(par)))

    def var(self, m):
        if self.p is not None:
            return m ** LD(self.p)
        return {"binomial": lambda: m * (1 - m), "ghs": lambda: 1 + m * m,
                "negbin": lambda: m + self.t * m * m}[self.kind]()

    def dvar(self, m):
        if self.p is not None:
            return LD(self.p) * m ** LD(self.p - 1) if self.p else 0 * m
        return {"binomial": lambda: 1 - 2 * m, "ghs": lambda: 2 * m,
                "negbin": lambda: 1 + 2 * self.t * m}[self.kind]()

    def dev_terms(self, y, m):
        """list of arrays summing to the unit deviance"""
        k, p = self.kind, self.p
        ys = np.where(y > 0, y, LD(1))
        if p is not None:
            if p == 0:
                return [(y - m) ** 2]
            if p == 1:
                return [np.where(y > 0, 2 * y * np.log(ys / m), 0), -2 * y, 2 * m]
            if p == 2:
                return [2 * np.log(m / y), 2 * y / m, LD(-2) + 0 * y]
            p = LD(p)
            return [2 * np.where(y > 0, ys, 0) ** (2 - p) / ((1 - p) * (2 - p)) if p < 2
                    else 2 * ys ** (2 - p) / ((1 - p) * (2 - p)),
                    -2 * y * m ** (1 - p) / (1 - p), 2 * m ** (2 - p) / (2 - p)]
        if k == "binomial":
            return [np.where(y > 0, -2 * y * np.log(m), 0),
                    np.where(y < 1, -2 * (1 - y) * np.log1p(-m), 0)]
        if k == "ghs":
            return [2 * y * np.arctan(y), -2 * y * np.arctan(m), np.log1p(m * m), -np.log1p(y * y)]
        r = 1 / self.t
        return [np.where(y > 0, 2 * y * np.log(ys / m), 0),
                -2 * (y + r) * np.log(y + r), 2 * (y + r) * np.log(m + r)]

    def ll_terms(self, y, m, phi):
        k, p = self.kind, self.p
        f = lambda a: np.asarray(a, float)
        if p is not None:
            if p == 0:
                return [-(y - m) ** 2 / (2 * phi), -np.log(2 * np.pi * phi) / 2 + 0 * y]
            if p == 1:
                return [np.where(y > 0, y * np.log(m), 0), -m, -LD(1) * special.gammaln(f(y + 1))]
            if p == 2:
                a = 1 / phi
                return [a * np.log(a * y / m), -a * y / m, -np.log(y),
                        -LD(special.gammaln(float(a))) + 0 * y]
            if p == 3:
                return [-np.log(2 * np.pi * phi * y ** 3) / 2,
                        -(y - m) ** 2 / (2 * phi * m * m * y)]
            p = LD(p)
            return [y * m ** (1 - p) / (1 - p) / phi, -m ** (2 - p) / (2 - p) / phi,
                    LD(1) * tweedie_norm(f(y), float(p), float(phi))]
        if k == "binomial":
            return [np.where(y > 0, y * np.log(m), 0), np.where(y < 1, (1 - y) * np.log1p(-m), 0)]
        if k == "negbin":
            r = 1 / self.t
            fr = float(r)
            return [np.where(y > 0, y * np.log(self.t * m), 0), -(y + r) * np.log1p(self.t * m),
                    LD(1) * special.gammaln(f(y) + fr), -LD(1) * special.gammaln(fr) + 0 * y,
                    -LD(1) * special.gammaln(f(y) + 1)]
        return None


def tweedie_norm(y, p, phi):
    """log of the Tweedie normalisation a(y, phi) by brute-force summation of the
    compound-Poisson-gamma series (log W(y, phi, p) - log y; 0 at y = 0)."""
    out = np.zeros_like(y)
    al = (2 - p) / (p - 1)          # gamma shape per jump
    for i, yi in enumerate(y):
        if yi <= 0:
            continue
        jmax = yi ** (2 - p) / (phi * (2 - p))
        w = 12 * np.sqrt(jmax + 1) / min(1.0, np.sqrt(p - 1)) + 60
        j = np.arange(max(1, int(jmax - w)), int(jmax + w) + 2)
        logw = (j * (al * np.log(yi) - al * np.log(p - 1) - (1 + al) * np.log(phi)
                     - np.log(2 - p)) - special.gammaln(j + 1) - special.gammaln(al * j))
        out[i] = special.logsumexp(logw) - np.log(yi)
    return out


def draw(rng, ref, n, band):
    k, p = ref.kind, ref.p
    s = {"unit": 1.0, "small": 1e-4, "large": 1e4, "wide": None}[band]
    sc = np.full(n, s) if s else 10 ** rng.uniform(-5, 5, n)
    if k == "binomial":
        m = rng.uniform(0.02, 0.98, n) if band == "unit" else special.expit(rng.uniform(-12, 12, n))
        y = rng.choice([0.0, 1.0], n) if rng.random() < 0.6 else rng.uniform(0, 1, n)
        if rng.random() < 0.2:
            y[rng.random(n) < 0.3] = 0.0
        return y, m
    if k == "normal" or k == "ghs" or p == 0:
        m = rng.normal(size=n) * sc
        y = m + rng.normal(size=n) * sc * rng.choice([1.0, 1e-3, 30])
        if k == "ghs" and band == "large":
            y, m = y / 100, m / 100
        if rng.random() < 0.3:
            m = np.where(rng.random(n) < 0.3, 0.0, m)   # zero is an ordinary mean here
        return y, m
    m = rng.gamma(2.0, 0.5, n) * sc + 1e-3 * sc
    if p is not None and p < 0:
        return rng.normal(size=n) * sc, m
    if k == "poisson" or k == "negbin" or p == 1:
        y = rng.poisson(np.minimum(m, 1e6)).astype(float)
        if rng.random() < 0.25:
            y = m * rng.gamma(1.0, 1.0, n)
    else:
        y = m * rng.gamma(rng.choice([0.5, 3.0]), 1.0, n) + 1e-3 * sc
        if p is not None and 1 < p < 2:
            y[rng.random(n) < 0.3] = 0.0
    if rng.random() < 0.1:
        y[: n // 2] = m[: n // 2]
    return y, m


def lay(rng, a, kind):
    a = np.asarray(a)
    if kind == "strided":
        b = np.full(2 * len(a) + 1, 3.25, a.dtype)
        b[1::2] = a
        return b[1::2]
    if kind == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()


def tweedie_small_dispersion(case, mon, rng):
    """Log-likelihoods far in the small-dispersion regime, where the density is the
    saddlepoint one up to a relative error of the order of 1 / j_max."""
    import glum
    from scipy import special as _s
    p = float(np.float32(rng.choice([1.1, 1.3, 1.5, 1.7, 1.9])))   # stored in single precision
    jm = 10 ** rng.uniform(4, 34)
    n = int(rng.integers(1, 6))
    y0 = 10 ** rng.uniform(-3, 8)
    y = y0 * rng.uniform(.7, 1.4, n)
    phi = y0 ** (2 - p) / ((2 - p) * jm)
    # means a few standard deviations (phi mu^p) away, or equal to the target
    z = rng.normal(size=n) * rng.choice([0.0, 1.0, 3.0])
    mu = y * (1 + z * np.sqrt(phi * y ** (p - 2)))
    w = rng.uniform(.2, 3, n) if rng.random() < .5 else None
    wl = np.ones(n) if w is None else w
    r = np.log1p((mu.astype(LD) - y) / y)
    hd = y.astype(LD) ** (2 - LD(p)) * (np.expm1((2 - LD(p)) * r) / (2 - LD(p))
                                        - np.expm1((1 - LD(p)) * r) / (1 - LD(p)))
    sad = -hd / phi - .5 * np.log(2 * np.pi * LD(phi) * y.astype(LD) ** LD(p))
    got = float(glum.TweedieDistribution(p).log_likelihood(y, mu, sample_weight=w, dispersion=phi))
    eps = float(np.finfo(float).eps)
    jj = y ** (2 - p) / ((2 - p) * phi)
    # log(mu / y) is only known to eps: d/dr of half_deviance/phi is about r * y^(2-p)/phi
    cond = np.abs(r).astype(float) * jj * eps * 8 + jj * eps * eps * 8
    series = np.where(jj < 2e8, 400 * eps * jj * (1 + np.abs(np.log(y)) + np.abs(np.log(phi))) / (p - 1), 0)
    tol = float(np.sum(wl * (8 / (jj * (2 - p) * (p - 1)) + cond + series
                             + 64 * eps * (1 + np.abs(sad.astype(float))))))
    mon.oracle += 1
    if not abs(got - float(np.sum(wl * sad))) <= tol:
        mon.violation("Tweedie log-likelihood for a small dispersion", got=got,
                      want=float(np.sum(wl * sad)), tol=tol, p=p, j_max=jm, y=y, z=z)
    mon.event("kernel:ll-small-dispersion")
    mon.state("small-dispersion", p, int(np.log10(jm)), w is None)


def run_case(case, mon):
    if case["i"] % 25 == 7:
        return tweedie_small_dispersion(case, mon, harness.rng_for("C07s", case["seed"], case["i"]))
    import glum
    rng = harness.rng_for("C07", case["seed"], case["i"])
    kind, par = FAMS[case["i"] % len(FAMS)]
    if kind == "tweedie" and rng.random() < 0.3 and not isinstance(par, int):
        par = float(np.round(rng.uniform(1.02, 1.98), 3))
    if kind == "negbin" and rng.random() < 0.3:
        par = float(10 ** rng.uniform(-2, 1.5))
    fam, R = make(kind, par), Ref(kind, par)
    n = int(rng.choice([1, 2, 7, 30, 200]))
    band = str(rng.choice(["unit", "unit", "small", "large", "wide"]))
    dt = np.float32 if rng.random() < 0.3 else np.float64
    layout = str(rng.choice(["c", "strided", "reversed", "readonly"]))
    y, m = (a.astype(dt) for a in draw(rng, R, n, band))
    if kind == "binomial":
        e32 = 1e-4 if dt == np.float32 else 1e-9
        m = np.clip(m, dt(e32), dt(1 - e32))
    elif R.p is None or R.p != 0:
        if kind != "ghs":
            m = np.maximum(m, np.finfo(dt).tiny * 1e10)
    if R.p is not None and R.p >= 2:
        y = np.maximum(y, dt(1e-12))
    wk = str(rng.choice(["none", "unif", "int", "zero", "scalar"]))
    w = {"none": None, "unif": rng.uniform(0.1, 3, n), "int": rng.integers(1, 5, n).astype(float),
         "zero": rng.uniform(0.1, 3, n) * (rng.random(n) < 0.7), "scalar": 2.5}[wk]
    if w is not None and np.ndim(w):
        w = w.astype(dt)
    yl, ml = LD(1) * y.astype(LD), LD(1) * m.astype(LD)
    wl = np.ones(n, LD) if w is None else (np.full(n, LD(w)) if np.ndim(w) == 0
                                          else w.astype(LD))
    Y, M = lay(rng, y, layout), lay(rng, m, layout)
    W = w if w is None or np.ndim(w) == 0 else lay(rng, w, layout)
    # glum does row-wise unit functions in the input precision
    e = float(np.finfo(dt).eps)
    tag = (kind, par, dt.__name__, layout, wk, band)

    def cmp(name, got, want, mag, ulps=64.0, eps=e, rel=0.0):
        mon.oracle += 1
        got = np.asarray(got)
        if got.shape != np.shape(want):
            mon.violation(f"{name}: shape {got.shape}, expected {np.shape(want)}", tag=tag)
            return
        want, mag = np.asarray(want, LD), np.asarray(mag, LD)
        if not np.all(np.isfinite(want)) or np.max(np.abs(mag), initial=0) > \
                0.01 * float(np.finfo(dt).max) ** 0.5:
            return
        tol = eps * ulps * np.abs(mag) + rel * np.abs(want) + float(np.finfo(dt).tiny)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got.astype(LD) - want) <= tol)
        if bad.any():
            j = int(np.argmax(bad)) if bad.ndim else 0
            mon.violation(f"{name} differs from its definition", tag=tag,
                          got=float(np.ravel(got)[j]), want=float(np.ravel(want)[j]),
                          tol=float(np.ravel(tol)[j]), y=float(y[min(j, n - 1)]),
                          mu=float(m[min(j, n - 1)]))
        mon.state(name.split(" ")[0], *tag)

    # sensitivity of power functions to rounding of log(mu): |p log mu| ulps
    pw = 1.0 + (abs(R.p) if R.p is not None else 1.0) * (1 + np.abs(np.log(np.abs(ml).astype(float) + 1e-300)))
    v, dv = R.var(ml), R.dvar(ml)
    vmag = np.abs(v) if kind != "binomial" else np.abs(v) + np.abs(ml) * LD(1)
    cmp("unit_variance", fam.unit_variance(M), v, vmag * pw)
    cmp("unit_variance_derivative", fam.unit_variance_derivative(M),
        dv, np.abs(dv) * pw + (1 + 2 * ml if kind in ("binomial", "negbin") else 0))
    phi = float(rng.choice([1.0, 0.37, 5.0]))
    if wk != "zero":
        wv = 1 if W is None else W
        cmp("variance", fam.variance(M, dispersion=phi, sample_weight=wv), v * phi / wl,
            vmag * pw * phi / wl)
        cmp("variance_derivative", fam.variance_derivative(M, dispersion=phi, sample_weight=wv),
            dv * phi / wl, (np.abs(dv) * pw + (1 + 2 * np.abs(ml))) * phi / wl)
    terms = R.dev_terms(yl, ml)
    unit, umag = sum(terms), sum(np.abs(t) for t in terms)
    if kind == "ghs":
        umag = umag + 1 + yl * yl * 0
    if R.p == 3:
        umag = (yl + ml) ** 2 / (ml * ml * yl)
        unit = (yl - ml) ** 2 / (ml * ml * yl)
    if R.p == 0:
        umag = yl ** 2 + ml ** 2
    pd = pw + np.abs(np.log(np.abs(yl).astype(float) + 1e-300))
    if kind == "negbin":
        rr = 1 / R.t
        unit = np.where(yl > 0, 2 * yl * np.log(np.where(yl > 0, yl, 1) / ml), 0) \
            - 2 * (yl + rr) * np.log1p((yl - ml) / (ml + rr))
        umag = umag + 2 * (yl + rr) + np.abs(yl)   # log of a ratio near one
        pd = pd + abs(np.log(float(rr)))
    ug = fam.unit_deviance(Y, M)
    cmp("unit_deviance", ug, unit, umag * pd)
    dd = -2 * (yl - ml) / v
    cmp("unit_deviance_derivative", fam.unit_deviance_derivative(Y, M), dd,
        2 * (np.abs(yl) + np.abs(ml)) / v * pw * (1 + ml / (1 - ml) if kind == "binomial" else 1))
    wv = 1 if W is None else W
    cmp("deviance_derivative", fam.deviance_derivative(Y, M, wv), dd * wl,
        2 * wl * (np.abs(yl) + np.abs(ml)) / v * pw
        * (1 + ml / (1 - ml) if kind == "binomial" else 1))
    # totals; glum evaluates these in double precision for the dedicated kernels
    tot, tmag = np.sum(unit * wl), np.sum(umag * wl * pd)
    teps = e if kind in ("binomial", "ghs") else float(np.finfo(float).eps)
    D = fam.deviance(Y, M, W) if wk != "none" or rng.random() < 0.5 else fam.deviance(Y, M)
    cmp("deviance total", float(D), tot, tmag, eps=max(teps, e if dt == np.float32 else 0))
    mon.check(D >= -float(tmag) * e * 64, "deviance is negative", tag=tag, got=float(D))
    # perfect fit
    yp = np.where(v > 0, m, m)
    if kind != "binomial" and kind != "ghs":
        D0 = float(fam.deviance(yp, yp, W))
        t0 = R.dev_terms(ml, ml)
        mg = float(np.sum(sum(np.abs(t) for t in t0) * wl * pd)) + float(np.sum(ml * ml * wl)) * 0
        mon.check(abs(D0) <= 64 * e * (mg + (float(np.sum(wl * (2 + 2 * ml))) if kind == "negbin"
                                            else 0.0)) + 1e-300,
                  "deviance of a perfect fit is not zero", tag=tag, got=D0, mag=mg)
    if kind == "binomial":
        yb = (rng.random(n) < 0.5).astype(dt)
        mon.check(float(fam.deviance(yb, yb.astype(dt), 1.0)) == 0.0,
                  "binomial deviance of a perfect 0/1 fit is not zero", tag=tag)
    # minimality in mu
    fac = 1 + 0.1 * rng.random()
    m2 = np.clip(m * dt(fac), dt(1e-9), dt(1 - 1e-7)) if kind == "binomial" else (m * dt(fac))
    if R.p is None or R.p >= 0:
        d_at = np.asarray(fam.unit_deviance(m, m), LD)
        d_off = np.asarray(fam.unit_deviance(m, m2), LD)
        mg = np.abs(sum(np.abs(t) for t in R.dev_terms(ml, ml))) * pd + 1 + np.abs(ml) * pd
        mon.check(bool(np.all(d_off >= d_at - 128 * e * mg)), "deviance is smaller off the target",
                  tag=tag)

    # line-search kernel ---------------------------------------------------------------
    links = {"normal": ["identity", "log"], "ghs": ["identity"], "binomial": ["logit", "cloglog"]
             }.get(kind, ["log"])
    if kind == "tweedie":
        links = ["identity"] if R.p == 0 else ["log"]
        if R.p in (0.0, 1.0, 2.0, 3.0) and rng.random() < 0.2:
            links = ["log"] if R.p == 0 else ["identity"]
    if kind in ("poisson", "gamma", "invgauss", "negbin") and rng.random() < 0.15:
        links = ["identity"]
    ln = str(rng.choice(links))
    if R.p is not None and R.p < 0:
        ln = "log"
    link = {"identity": glum.IdentityLink, "log": glum.LogLink, "logit": glum.LogitLink,
            "cloglog": glum.CloglogLink}[ln]()
    from vlib.ref import RefLink
    if kind == "normal" and ln == "log" or R.p == 0 and ln == "log":
        m = np.abs(m) + dt(1e-3)
        ml = m.astype(LD)
        v = R.var(ml)
    eta_t = {"identity": m, "log": np.log(m), "logit": special.logit(m),
             "cloglog": np.log(-np.log1p(-m))}[ln].astype(dt)
    if kind == "binomial":
        eta_t = np.clip(eta_t, -8, 8 if ln == "logit" else 2.0).astype(dt)
        if dt == np.float32:
            eta_t = np.clip(eta_t, -7, 1.5).astype(dt)
    factor = float(rng.choice([1.0, 0.5, 0.0, -0.25, 1e-3, 0.9 ** 7]))
    step = rng.normal(size=n).astype(dt) * dt(0.3)
    if ln == "identity" and kind not in ("normal", "ghs") and R.p != 0:
        step = (eta_t * dt(0.2)).astype(dt)
    cur = (eta_t - dt(factor) * step).astype(dt)
    Wk = np.ones(n, dt) if w is None or np.ndim(w) == 0 else w
    wk1 = Wk.astype(LD)
    C_, S_ = lay(rng, cur, layout), lay(rng, step, layout)
    eo, mo, dv1 = fam.eta_mu_deviance(link, factor, C_, S_, Y, lay(rng, Wk, layout))
    ewant = cur.astype(LD) + LD(dt(factor)) * step.astype(LD)
    if kind == "binomial" and ln == "cloglog" and np.abs(ewant).max() > 3.4:
        pass
    cmp("eta kernel", eo, ewant, np.abs(cur) + np.abs(factor * step))
    mwant = {"identity": lambda t: t, "log": np.exp, "logit": lambda t: 1 / (1 + np.exp(-t)),
             "cloglog": lambda t: -np.expm1(-np.exp(t))}[ln]
    # glum computes mu from its own (rounded) eta
    emu = mwant(eo.astype(LD))
    cmp("mu kernel", mo, emu, np.abs(emu) + (1 if kind == "binomial" else 0), ulps=64)
    # equals the deviance up to a term free of the linear predictor: compare two steps
    f2 = factor + 0.35
    eo2, mo2, dv2 = fam.eta_mu_deviance(link, f2, C_, S_, Y, lay(rng, Wk, layout))
    ok = np.all(np.isfinite(mo)) and np.all(np.isfinite(mo2))
    if kind != "normal" and kind != "ghs" and R.p != 0:
        ok = ok and (mo > 0).all() and (mo2 > 0).all()
    if ok:
        def parts(mm):
            mm = mm.astype(LD)
            if R.p == 3:
                u = (yl - mm) ** 2 / (mm * mm * yl)
                return u, (yl + mm) ** 2 / (mm * mm * yl)
            t = R.dev_terms(yl, mm)
            if R.p == 0:
                return t[0], yl ** 2 + mm ** 2
            if kind == "negbin":
                rr_ = 1 / R.t
                return sum(t), sum(np.abs(q) for q in t) + (yl + rr_) * (
                    1 + np.abs(np.log(mm + rr_))) + np.abs(yl) * np.abs(np.log(mm))
            return sum(t), sum(np.abs(q) for q in t) + np.abs(yl)
        mm1, mm2 = mwant(eo.astype(LD)), mwant(eo2.astype(LD))
        u1, g1 = parts(mm1)
        u2, g2 = parts(mm2)
        z = np.abs(eo.astype(LD)) + np.abs(eo2.astype(LD)) + 2
        want = np.sum(wk1 * (u2 - u1))
        mag = np.sum(wk1 * (g1 + g2) * z * (1 + abs(R.p or 0)))
        if kind == "ghs":
            mag = mag + np.sum(wk1)
        if kind == "binomial":   # weights*y*eta is what the kernel sums
            mag = np.sum(wk1 * (1 + np.abs(eo) + np.abs(eo2))) * LD(4)
            if ln == "cloglog":     # through mu: log(1 - mu) loses 1/(1 - mu)
                mag = mag + np.sum(wk1 * (1 / (1 - mm1) + 1 / (1 - mm2) + 1 / mm1 + 1 / mm2))
        cmp("line-search deviance", float(dv2) - float(dv1), want, mag, ulps=64)
        mon.event("kernel:eta_mu")
    # rows ------------------------------------------------------------------------------
    if np.all(np.isfinite(mo)):
        mu_in = mo.copy()
        g, h = fam.rowwise_gradient_hessian(
            link, None, phi, None, Y, lay(rng, Wk, layout), lay(rng, eo, layout),
            lay(rng, mu_in, layout))
        rl = RefLink(ln)
        ee, mm = eo.astype(LD), mu_in.astype(LD)
        if ln == "logit":
            d1 = mm * (1 - mm)
            d2 = d1 * (1 - 2 * mm)
        elif ln == "log":
            d1 = d2 = mm
        elif ln == "identity":
            d1, d2 = np.ones_like(mm), 0 * mm
        else:
            d1 = np.exp(ee - np.exp(ee))
            d2 = d1 * (1 - np.exp(ee))
        vv, vd = R.var(mm), R.dvar(mm)
        gw = wk1 * d1 / vv * (yl - mm)
        gm = wk1 * d1 / vv * (np.abs(yl) + np.abs(mm)) * (1 + np.abs(ee)) * (1 + abs(R.p or 1))
        if kind == "binomial":
            gm = gm / np.minimum(mm, 1 - mm)
        if np.all(wk1 > 0) or kind not in ("binomial", "ghs") or ln == "logit":
            good = np.isfinite(np.asarray(gw, float)) & (wk1 > 0)
            cmp("row gradient", np.asarray(g)[good], gw[good], gm[good])
            hexp = wk1 * d1 * d1 / vv
            hobs = hexp - wk1 * (yl - mm) * (d2 / vv - d1 * d1 * vd / vv ** 2)
            hm = np.abs(hexp) + wk1 * (np.abs(yl) + np.abs(mm)) * (
                np.abs(d2) / vv + d1 * d1 * np.abs(vd) / vv ** 2)
            hm = hm * (1 + np.abs(ee)) * (1 + abs(R.p or 1))
            if kind == "binomial":
                hm = hm / np.minimum(mm, 1 - mm)
            hg = np.asarray(h).astype(LD)
            tolh = 64 * e * hm + float(np.finfo(dt).tiny)
            a = np.all((np.abs(hg - hexp) <= tolh)[good])
            b = np.all((np.abs(hg - hobs) <= tolh)[good])
            mon.check(bool(a or b), "row Hessian is neither the expected nor the observed "
                      "curvature", tag=tag, link=ln, got=np.asarray(h)[:5].astype(float),
                      expected=hexp[:5].astype(float), observed=hobs[:5].astype(float))
            mon.check(bool(np.all(np.asarray(h)[good] >= 0)), "row Hessian is negative", tag=tag)
            z = wk1 == 0
            mon.check(bool(np.all(np.asarray(g)[z] == 0) and np.all(np.asarray(h)[z] == 0)),
                      "rows of weight zero contribute", tag=tag)
            mon.event("kernel:rows")
            mon.state("rows", kind, par, ln, dt.__name__, layout)
    # log-likelihood --------------------------------------------------------------------
    y, m = yl.astype(dt), np.asarray(M)
    ml = m.astype(LD)
    v = R.var(ml)
    if hasattr(fam, "log_likelihood") and not (
            R.p is not None and (R.p < 0 or 2 < R.p < 3 or R.p > 3)):
        if R.p is not None and 1 < R.p < 2 and (n > 30 or band in ("large", "wide")):
            pass
        else:
            ph = LD(phi)
            if kind == "poisson" or kind == "negbin" or R.p == 1:
                ph = LD(1)
            t = R.ll_terms(yl, ml, ph)
            want, mag = np.sum(sum(t) * wl), np.sum((sum(np.abs(q) for q in t) + 1 + yl) * wl * (pd + 2))
            if kind == "negbin":
                mag = mag + np.sum(wl * (yl + 1 / R.t) * (1 + np.abs(np.log(R.t * ml))))
            if 1 < (R.p or 0) < 2:
                jm = np.where(yl > 0, np.where(yl > 0, yl, 1) ** LD(2 - R.p), 0) / (
                    phi * (2 - R.p))
                mag = mag + np.sum(wl * jm * (20 + np.abs(np.log(jm + 1e-10))) / (R.p - 1))
            Wl = W if W is None or np.ndim(W) else np.full(n, float(W))
            kw = {} if kind in ("poisson",) else {"dispersion": phi}
            ok_ = float(np.max(np.abs(mag))) < 1e12
            if ok_:
                got = fam.log_likelihood(Y, M, sample_weight=Wl, **kw)
                cmp("log_likelihood", float(got), want, mag,
                    eps=max(float(np.finfo(float).eps), e))
                mon.event("kernel:ll")
    # dispersion ------------------------------------------------------------------------
    ddof = int(rng.integers(0, 3))
    sw = LD(n) if w is None or np.ndim(w) == 0 else np.sum(wl)
    if sw > ddof + 0.5:
        wd = None if w is None or np.ndim(w) == 0 else W
        wdl = np.ones(n, LD) if wd is None else wl
        res = (yl - ml) ** 2 / v
        rm = (np.abs(yl) + np.abs(ml)) ** 2 / v * pw
        if kind == "binomial":
            rm = rm / np.minimum(ml, 1 - ml)
        got = fam.dispersion(Y, M, sample_weight=wd, ddof=ddof)
        cmp("dispersion pearson", float(got), np.sum(wdl * res) / (sw - ddof),
            np.sum(wdl * rm) / (sw - ddof) * (sw / (sw - ddof)),
            eps=max(float(np.finfo(float).eps), e))
        got = fam.dispersion(Y, M, sample_weight=wd, ddof=ddof, method="deviance")
        cmp("dispersion deviance", float(got), np.sum(wdl * unit) / (sw - ddof),
            np.sum(wdl * umag * pd) / (sw - ddof) * (sw / (sw - ddof)),
            eps=max(float(np.finfo(float).eps), e))
        mon.event("kernel:disp")
    mon.sample({"family": kind, "param": par, "n": n, "dtype": dt.__name__, "layout": layout,
                "band": band})


if __name__ == "__main__":
    import checks.c07 as mod
    harness.main(mod)
