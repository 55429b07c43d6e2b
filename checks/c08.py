"""C08: link functions against long-double definitions; names against the documentation."""
import re
import warnings

import numpy as np

from vlib import gen, harness, ref
from vlib.harness import Skip

PROPERTY = "C08"
RULE = ("calls of every link method on random, dense-grid and extreme arguments (float64 and "
        "float32, scalars, strided and 2-d arrays) judged against long-double definitions, and "
        "family/link spellings resolved by fitting; non-trivial = the returned numbers were "
        "judged against the formula (or the refusal was required); distinct = link, power, "
        "method, dtype, argument regime / spelling")
MINIMUM = {"quick": {"oracle": 20000, "states": 500, "kind:math": 1500, "kind:names": 300,
                     "kind:refuse": 150, "clipped": 50},
           "thorough": {"oracle": 200000, "states": 800}}
LD = np.longdouble
POWERS = [-1.5, -1, 0, 1, 1.25, 1.5, 1.7, 2, 2.5, 3, 4, 0.0, 1.0, 2.0]


def plan(tier, seed):
    n = 30000 if tier == "quick" else 300000
    return [{"seed": seed, "i": i} for i in range(n)]


def run_case(case, mon):
    rng = harness.rng_for("C08", case["seed"], case["i"])
    k = case["i"] % 10
    if k < 6:
        return math(rng, mon)
    if k < 8:
        return names(rng, mon)
    return refuse(rng, mon)


# ---- definitions in long double -------------------------------------------------
def L_link(n, p, mu):
    if n == "identity" or p == 0:
        return mu
    if n == "log" or p == 1:
        return np.log(mu)
    if n == "logit":
        return np.log(mu) - np.log1p(-mu)
    if n == "cloglog":
        return np.log(-np.log1p(-mu))
    return mu ** (1 - LD(p))


def L_dlink(n, p, mu):
    if n == "identity" or p == 0:
        return np.ones_like(mu)
    if n == "log" or p == 1:
        return 1 / mu
    if n == "logit":
        return 1 / (mu * (1 - mu))
    if n == "cloglog":
        return -1 / ((1 - mu) * np.log1p(-mu))
    return (1 - LD(p)) * mu ** (-LD(p))


def L_inv(n, p, eta):
    if n == "identity" or p == 0:
        return eta
    if n == "log" or p == 1:
        return np.exp(eta)
    if n == "logit":
        return np.where(eta > 0, 1 / (1 + np.exp(-np.abs(eta))),
                        np.exp(-np.abs(eta)) / (1 + np.exp(-np.abs(eta))))
    if n == "cloglog":
        return -np.expm1(-np.exp(eta))
    return eta ** (1 / (1 - LD(p)))


def L_d1(n, p, eta):
    if n == "identity" or p == 0:
        return np.ones_like(eta)
    if n == "log" or p == 1:
        return np.exp(eta)
    if n == "logit":
        e = np.exp(-np.abs(eta))
        return e / (1 + e) ** 2
    if n == "cloglog":
        return np.exp(eta - np.exp(eta))
    q = 1 / (1 - LD(p))
    return q * eta ** (q - 1)


def L_d2(n, p, eta):
    if n == "identity" or p == 0:
        return np.zeros_like(eta)
    if n == "log" or p == 1:
        return np.exp(eta)
    if n == "logit":
        e = np.exp(-np.abs(eta))
        return -np.sign(eta) * e * (1 - e) / (1 + e) ** 3
    if n == "cloglog":
        return np.exp(eta - np.exp(eta)) - np.exp(2 * eta - np.exp(eta))
    q = 1 / (1 - LD(p))
    return q * (q - 1) * eta ** (q - 2)


def make_link(rng):
    import glum
    n = ["identity", "log", "logit", "cloglog", "tweedie"][rng.integers(5)]
    p = None
    if n == "tweedie":
        p = POWERS[rng.integers(len(POWERS))]
        lk = glum.TweedieLink(p)
        p = float(np.float32(p))
        return n, p, lk
    return n, None, {"identity": glum.IdentityLink, "log": glum.LogLink,
                     "logit": glum.LogitLink, "cloglog": glum.CloglogLink}[n]()


def layouts(rng, v, dt):
    v = v.astype(dt)
    r = rng.random()
    if r < 0.6:
        return v, "vec"
    if r < 0.75:
        big = np.full(2 * len(v), np.nan, dtype=dt)
        big[::2] = v
        return big[::2], "strided"
    if r < 0.9 and len(v) % 2 == 0:
        return v.reshape(2, -1), "2d"
    return dt(v[0]), "scalar"


def math(rng, mon):
    n, p, lk = make_link(rng)
    dt = np.float32 if rng.random() < 0.3 else np.float64
    eps = float(np.finfo(dt).eps)
    m = int(rng.choice([1, 2, 8, 40]))
    regime = ["mid", "grid", "wide", "extreme"][rng.integers(4)]
    frac = n == "tweedie" and p not in (0.0, 1.0)
    # exponents of a Tweedie link are kept in single precision
    ex = 3e-7 if frac else 0.0
    # ---- linear predictors
    top = {"log": 80.0, "logit": 60.0, "cloglog": 60.0}.get(n, 1e6)
    if n == "tweedie" and p == 1:
        top = 80.0
    if regime == "mid":
        eta = rng.normal(size=m)
    elif regime == "grid":
        eta = np.linspace(-4, 4, m)
    elif regime == "wide":
        eta = rng.uniform(-1, 1, m) * 15
    else:
        eta = rng.choice([-1, 1], m) * top * 10 ** rng.uniform(-2, 0, m)
        if n in ("logit", "cloglog") and rng.random() < 0.5:
            eta = eta * 12
    if frac:
        eta = np.exp(np.clip(eta, -6, 6))
        if rng.random() < .15 and p > 1:  # means below zero do not exist
            bad = -np.abs(eta).astype(dt)
            q = 1 / (1 - p)
            if q != int(q):
                for meth in ("inverse", "inverse_derivative", "inverse_derivative2"):
                    try:
                        out = getattr(lk, meth)(bad)
                        mon.check(False, f"TweedieLink.{meth} accepts negative linear "
                                         f"predictors for power {p}", got=out)
                    except ValueError:
                        mon.check(True, "")
                        mon.event("refused-negative")
    eta, lay = layouts(rng, eta, dt)
    e = np.asarray(eta).astype(LD)
    with np.errstate(all="ignore"), warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        mu = lk.inverse(eta)
        d1 = lk.inverse_derivative(eta)
        d2 = lk.inverse_derivative2(eta)
        rm, r1, r2 = L_inv(n, p, e), L_d1(n, p, e), L_d2(n, p, e)
        tag = dict(link=n, power=p, dtype=dt.__name__)
        nm = n if p is None else f"{n}({p:g})"
        amp = np.abs(e) + 2
        leta = np.abs(np.log(np.maximum(np.abs(e), LD(1e-300)))) if frac else 0
        rel = 16 * eps * amp + ex * (1 + leta * (abs(1 / (1 - p)) if frac else 0)) * 4 \
            if n != "identity" else 4 * eps
        if n in ("logit", "cloglog"):
            clip = 50 * eps
            lo_ok = np.clip(rm, clip, 1 - clip)
            band = 16 * eps * amp * np.minimum(rm, 1) + 4 * eps
            ok = np.abs(np.asarray(mu, LD) - lo_ok) <= band
            mon.check(bool(np.all(ok)), f"{nm}.inverse differs from its definition",
                      eta=np.asarray(eta, float), got=np.asarray(mu, float),
                      want=np.asarray(rm, float), **tag)
            mon.check(bool(np.all((np.asarray(mu) > 0) & (np.asarray(mu) < 1))),
                      f"{nm}.inverse leaves the open interval (0, 1)", got=mu, **tag)
            was = bool(np.any((rm < clip * .9) | (rm > 1 - clip * .9)))
            isnt = bool(np.all((rm > clip * 1.1) & (rm < 1 - clip * 1.1)))
            said = any("lipping" in str(r.message) for r in rec)
            if was:
                mon.event("clipped")
                mon.check(said, f"{nm}.inverse clipped means silently", **tag)
            elif isnt:
                mon.check(not said, f"{nm}.inverse warns about clipping without need", **tag)
            abs1 = 8 * eps if n == "logit" else 0
        else:
            cmp(mon, f"{nm}.inverse differs from its definition", mu, rm, rel, 0, eps, eta, tag)
            abs1 = 0
            if n != "identity" and not (n == "tweedie" and p == 0):
                mon.check(bool(np.all(np.asarray(mu) > 0)), f"{nm}.inverse is not positive",
                          eta=np.asarray(eta, float), got=np.asarray(mu, float), **tag)
        big = np.exp(np.minimum(e, 11000)) if n == "cloglog" else 0
        cmp(mon, f"{nm}.inverse_derivative differs from the derivative of the inverse", d1, r1,
            rel + 16 * eps * (amp + big), abs1, eps, eta, tag)
        s2 = np.exp(e - np.exp(e)) if n == "cloglog" else LD(0)
        cmp(mon, f"{nm}.inverse_derivative2 differs from the second derivative of the inverse",
            d2, r2, 2 * rel + 16 * eps * (amp + big), abs1 + 16 * eps * s2 * (1 + big) * amp,
            eps, eta, tag)
        mon.state("math", nm, "inv", dt.__name__, regime, lay)
        # ---- means
        u = rng.random(m)
        if n in ("logit", "cloglog"):
            mean = {"mid": 0.05 + 0.9 * u, "grid": (np.arange(m) + .5) / m,
                    "wide": np.where(u < .5, u / 500 + 1e-6, 1 - u / 500),
                    "extreme": np.where(u < .5, 10 ** (-3 - 8 * u), 1 - 10 ** (-2 - 3 * u))
                    }[regime]
        elif n == "identity" or p == 0:
            mean = rng.normal(size=m) * 10 ** rng.uniform(-3, 6)
        else:
            mean = 10 ** (rng.uniform(-1, 1, m) * {"mid": .5, "grid": 1, "wide": 3,
                                                  "extreme": 6}[regime])
        mean, lay = layouts(rng, mean, dt)
        mm = np.asarray(mean).astype(LD)
        g, dg = lk.link(mean), lk.derivative(mean)
        lm = np.abs(np.log(mm)) if frac else 0
        relg = 64 * eps + (ex * (1 + lm * abs(1 - p)) * 4 if frac else 0)
        if frac:
            relg = relg + 16 * eps * lm * (1 + abs(p))
        # log-type links cancel near g = 0: absolute floor
        floor = 8 * eps if n in ("log", "logit", "cloglog") or p == 1 else 0
        if n in ("logit", "cloglog"):
            floor = floor + 8 * eps / np.minimum(mm, 1 - mm) ** 0
        cmp(mon, f"{nm}.link differs from its definition", g, L_link(n, p, mm), relg, floor,
            eps, mean, tag)
        cmp(mon, f"{nm}.derivative differs from the derivative of the link", dg,
            L_dlink(n, p, mm), relg + 64 * eps, 0, eps, mean, tag)
        # inverse pair
        back = lk.inverse(g)
        gg = np.asarray(g).astype(LD)
        err = np.abs(L_d1(n, p, gg)) * (eps * 16 * (np.abs(gg) + 1)) + 32 * eps * np.abs(mm)
        if frac:
            err = err + np.abs(mm) * ex * 8 * (1 + lm)
        if n in ("logit", "cloglog"):
            err = err + 60 * eps
        mon.oracle += 1
        bad = ~(np.abs(np.asarray(back).astype(LD) - mm) <= err)
        if np.any(bad):
            mon.violation(f"{nm}: inverse(link(mu)) is not mu", mu=np.asarray(mean, float),
                          got=np.asarray(back, float), **tag)
        prod = np.asarray(dg).astype(LD) * np.asarray(lk.inverse_derivative(g)).astype(LD)
        if n == "logit":
            cond = eps * 64 / np.minimum(mm, 1 - mm)
        elif n == "cloglog":
            cond = eps * 64 * (2 + np.abs(gg)) * (2 + np.exp(gg))
        else:
            cond = 64 * eps * (2 + np.abs(gg)) + ex * 16 * (1 + lm)
            if frac:
                cond = cond + 64 * eps * lm * (1 + abs(p))
        mon.oracle += 1
        if np.any(~(np.abs(prod - 1) <= cond)):
            mon.violation(f"{nm}: link and inverse derivatives are not reciprocal",
                          mu=np.asarray(mean, float), got=np.asarray(prod, float), **tag)
        # dtype: single precision stays single
        if dt is np.float32 and lay != "scalar":
            for nme, v in (("link", g), ("derivative", dg), ("inverse", back)):
                mon.check(np.asarray(v).dtype == np.float32,
                          f"{nm}.{nme} changes single to {np.asarray(v).dtype}", **tag)
    mon.state("math", nm, "fwd", dt.__name__, regime, lay)
    mon.event("kind:math")
    tw = lk.to_tweedie(safe=False)
    want = {"identity": 0, "log": 1, "tweedie": p}.get(n)
    mon.check((tw is None) == (want is None) and (tw is None or float(tw.power) == want),
              f"{nm}.to_tweedie is wrong", got=getattr(tw, "power", None))


def cmp(mon, msg, got, want, rel, floor, eps, arg, tag):
    mon.oracle += 1
    g, w = np.asarray(got).astype(LD), np.asarray(want, LD)
    if g.shape not in (w.shape, ()):
        mon.violation(msg + " (shape)", got=str(g.shape), want=str(w.shape), **tag)
        return
    tiny = np.finfo(np.asarray(got).dtype).tiny if np.asarray(got).dtype.kind == "f" else 0
    huge = np.finfo(np.asarray(arg).dtype).max
    bad = ~(np.abs(g - w) <= (rel + 4 * eps) * np.abs(w) + floor + 4 * tiny)
    bad &= ~(np.abs(w) > 1e-2 * huge)
    if np.any(bad):
        j = int(np.argmax(bad))
        a = np.broadcast_to(np.asarray(arg, float), bad.shape).ravel()[j]
        mon.violation(msg, arg=float(a), got=float(np.broadcast_to(g, bad.shape).ravel()[j]),
                      want=float(w.ravel()[j]), **tag)


# ---- names ---------------------------------------------------------------------
PLAIN = {"normal": ("normal", None), "gaussian": ("normal", None), "poisson": ("poisson", None),
         "gamma": ("gamma", None), "inverse.gaussian": ("invgauss", None),
         "binomial": ("binomial", None), "tweedie": ("tweedie", 1.5),
         "negative.binomial": ("negbin", 1.0)}
LINKS = {"identity": ("identity", None), "log": ("log", None), "logit": ("logit", None),
         "cloglog": ("cloglog", None), "tweedie": ("tweedie", 1.5)}


def number(rng, v):
    """Different spellings of a number."""
    return [repr(v), f"{v:g}", f"{v:.4f}", f"{v:e}", f" {v!r} "][rng.integers(5)] \
        if v == round(v, 4) else repr(v)


def some_family(rng):
    import glum
    r = rng.random()
    if r < 0.4:
        s = list(PLAIN)[rng.integers(len(PLAIN))]
        return s, PLAIN[s]
    if r < 0.75:
        sp = ["", " "][rng.integers(2)]
        if rng.random() < 0.6:
            p = float(rng.choice([-2, -0.5, 0, 1, 1.1, 1.5, 1.9, 2, 2.3, 3, 4.5]))
            return f"tweedie{sp}({number(rng, p)})", ("tweedie", p)
        t = float(rng.choice([0.1, 0.5, 1, 2, 7.25]))
        return f"negative.binomial{sp}({number(rng, t)})", ("negbin", t)
    k = rng.integers(8)
    return [(glum.NormalDistribution(), ("normal", None)),
            (glum.PoissonDistribution(), ("poisson", None)),
            (glum.GammaDistribution(), ("gamma", None)),
            (glum.InverseGaussianDistribution(), ("invgauss", None)),
            (glum.BinomialDistribution(), ("binomial", None)),
            (glum.GeneralizedHyperbolicSecant(), ("ghs", None)),
            (glum.TweedieDistribution(1.25), ("tweedie", 1.25)),
            (glum.NegativeBinomialDistribution(0.75), ("negbin", 0.75))][k]


def some_link(rng, fam):
    import glum
    d = ref.default_link(fam)
    r = rng.random()
    if r < 0.4:
        return ["auto", None][int(rng.random() < 0.2)], (d.name, None), "auto"
    if r < 0.75:
        s = list(LINKS)[rng.integers(len(LINKS))]
        return s, LINKS[s], s
    if r < 0.9:
        p = float(rng.choice([-1, 0, 1, 1.5, 2, 2.5, 3]))
        sp = ["", " "][rng.integers(2)]
        return f"tweedie{sp}({number(rng, p)})", ("tweedie", p), "tweedie()"
    inst = [(glum.IdentityLink(), ("identity", None)), (glum.LogLink(), ("log", None)),
            (glum.LogitLink(), ("logit", None)), (glum.CloglogLink(), ("cloglog", None)),
            (glum.TweedieLink(2.5), ("tweedie", 2.5))][rng.integers(5)]
    return inst[0], inst[1], "instance"


def behaves_like_family(mon, fam, want, text):
    """The resolved distribution has the variance, deviance and support of `want`."""
    kind, param = want
    if param is not None:
        param = float(np.float32(param))
    R = ref.RefFamily(kind, param)
    mu = np.array([0.05, 0.3, 0.6, 0.95]) if kind == "binomial" else \
        np.array([0.1, 0.7, 1.0, 3.5])
    y = np.array([0.0, 1.0, 1.0, 0.0]) if kind == "binomial" else np.array([0.4, 1.0, 2.0, 3.0])
    mon.close(fam.unit_variance(mu), R.var(mu), f"family {text} has another variance function",
              rtol=1e-6)
    mon.close(fam.unit_variance_derivative(mu), R.var_d(mu),
              f"family {text} has another variance derivative", rtol=1e-6, atol=1e-9)
    mon.close(fam.unit_deviance(y, mu), R.unit_dev(y, mu),
              f"family {text} has another unit deviance", rtol=2e-6, atol=2e-6)
    probe = np.array([-1.0, -1e-9, 0.0, 1e-9, 0.5, 1.0, 1.0 + 1e-9, 7.0, np.inf, np.nan])
    for v in probe:
        got = bool(np.all(fam.in_y_range(np.array([v]))))
        if np.isinf(v) or np.isnan(v):
            continue
        mon.check(got == bool(R.in_range(np.array([v]))[0]),
                  f"family {text} has another range of valid targets", at=v, got=got)


def behaves_like_link(mon, link, want, text):
    n, p = want
    if p is not None:
        p = float(np.float32(p))
    mu = np.array([0.1, 0.35, 0.5, 0.8])
    mon.close(link.link(mu), np.asarray(L_link(n, p, mu.astype(LD)), float),
              f"link {text} is another function", rtol=1e-6, atol=1e-9)
    mon.close(link.derivative(mu), np.asarray(L_dlink(n, p, mu.astype(LD)), float),
              f"link {text} has another derivative", rtol=1e-6)


def names(rng, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    fs, want = some_family(rng)
    R = ref.RefFamily(*want)
    ls, lwant, ltag = some_link(rng, R)
    # a fit in the common domain of every combination: means inside (0, 1)
    n = 12
    X = rng.uniform(0, 1, (n, 2))
    y = rng.integers(0, 2, n).astype(float) if want[0] == "binomial" else rng.uniform(.2, .8, n)
    if y.min() == y.max():
        y[0] = 1 - y[0]
    kw = dict(family=fs, link=ls, max_iter=3, gradient_tol=1e-3)
    if rng.random() < 0.15:
        est = GeneralizedLinearRegressorCV(alphas=[50.0], cv=2, **kw)
    else:
        est = GeneralizedLinearRegressor(alpha=50.0, **kw)
    before = est.get_params()
    fam = link = None
    try:
        rec = gen.fit(est, X, y, None, None)
        fam, link = est.family_instance, est.link_instance
        fitted = True
    except ValueError as e:
        if not re.search(r"infs or NaNs|not supported for power|LinAlgError|variation", str(e)) \
                and not isinstance(e, np.linalg.LinAlgError):
            raise
        fam, link = est.family_instance, est.link_instance
        fitted = False
    text = fs if isinstance(fs, str) else f"{type(fs).__name__} instance"
    behaves_like_family(mon, fam, want, text)
    behaves_like_link(mon, link, lwant, f"{ls if not hasattr(ls, 'link') else 'instance'}"
                      + (f" for family {text}" if ltag == "auto" else ""))
    if not isinstance(fs, str):
        mon.check(fam is fs, "a family instance is replaced by another object")
    if hasattr(ls, "link"):
        mon.check(link is ls, "a link instance is replaced by another object")
    after = est.get_params()
    mon.check(after["family"] is before["family"] and after["link"] is before["link"],
              "resolving names changed the parameters")
    if fitted:
        Z = rng.uniform(0, 1, (5, 2))
        lp = est.linear_predictor(Z)
        mu = est.predict(Z)
        with np.errstate(all="ignore"):
            wantmu = np.asarray(L_inv(lwant[0], None if lwant[1] is None else
                                      float(np.float32(lwant[1])), lp.astype(LD)), float)
        if lwant[0] in ("logit", "cloglog"):
            wantmu = np.clip(wantmu, 50 * 2.3e-16, 1 - 50 * 2.3e-16)
        if np.all(np.isfinite(wantmu)) and np.all(np.abs(lp) < 500):
            mon.close(mu, wantmu, f"predictions of family {text} with link {ltag} do not use "
                      "that link", rtol=1e-5, atol=1e-12)
    mon.event("kind:names")
    mon.state("names", text, ls if not hasattr(ls, "link") else type(ls).__name__)


def refuse(rng, mon):
    """A spelling that is none of the documented ones."""
    from glum import GeneralizedLinearRegressor
    which = "family" if rng.random() < 0.6 else "link"
    valid = list(PLAIN) + ["tweedie(1.5)", "negative.binomial(2)"] if which == "family" \
        else list(LINKS) + ["auto", "tweedie(1.5)"]
    s = valid[rng.integers(len(valid))]
    k = rng.integers(9)
    j = int(rng.integers(len(s)))
    if k == 0:
        t = s[:j] + s[j + 1:]
    elif k == 1:
        t = s[:j] + "q" + s[j:]
    elif k == 2:
        t = s.upper() if rng.random() < .5 else s.capitalize()
    elif k == 3:
        t = s + [" ", "(1)", "x", "()", "(2", ")"][rng.integers(6)]
    elif k == 4:
        t = [" ", "x", "-", "("][rng.integers(4)] + s
    elif k == 5:
        t = s.replace(".", "_") if "." in s else s[::-1]
    elif k == 6:
        t = ["tweedie(0.5)", "tweedie(abc)", "tweedie()", "tweedie", "negative.binomial(0)",
             "negative.binomial(-1)", "negative.binomial(x)"][rng.integers(7)]
    elif k == 7:
        t = ["", "quasipoisson", "probit", "inverse", "sqrt", "gaussian.inverse", "bernoulli",
             "identity " + s][rng.integers(8)]
    else:
        t = [3, 1.5, ["normal"], {"family": 1}, object, np.array([1.0])][rng.integers(6)]
    if isinstance(t, str):
        # is it, after all, a documented spelling?
        m = re.fullmatch(r"tweedie ?\(([^()]*)\)", t)
        if m:
            try:
                v = float(m.group(1))
                if not 0 < v < 1:
                    raise Skip("valid spelling")
            except ValueError:
                pass
        m = re.fullmatch(r"negative\.binomial ?\(([^()]*)\)", t)
        if m and which == "family":
            try:
                if float(m.group(1)) > 0:
                    raise Skip("valid spelling")
            except ValueError:
                pass
        if t in (PLAIN if which == "family" else list(LINKS) + ["auto"]):
            raise Skip("valid spelling")
    X = rng.uniform(0, 1, (10, 2))
    y = rng.uniform(.2, .8, 10)
    kw = {"family": t} if which == "family" else {"family": "normal", "link": t}
    est = GeneralizedLinearRegressor(alpha=50.0, **kw)
    mon.oracle += 1
    try:
        est.fit(X, y)
    except Exception as e:
        mon.event("refused:" + type(e).__name__)
    else:
        mon.violation(f"undocumented {which} spelling {t!r} is accepted",
                      resolved=repr(getattr(est, f"{which}_instance", None)))
    mon.event("kind:refuse")
    mon.state("refuse", which, t if isinstance(t, str) else type(t).__name__)


if __name__ == "__main__":
    import checks.c08 as mod
    harness.main(mod)
