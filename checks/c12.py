"""C12: covariance matrices equal the documented estimators' formulas."""
import warnings

import numpy as np

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C12"
RULE = ("covariance_matrix / std_errors calls (after fit, at fit time, on other rows, with given mu "
        "or dispersion) on random fitted plain, path and CV models; non-trivial = the returned "
        "matrix was judged against an independent float64 evaluation of the estimator; distinct = "
        "family/link, estimator type, cluster label kind, information kind, storage, weights, "
        "offset, call form")
MINIMUM = {"quick": {"oracle": 5000, "states": 900, "est:classical": 200, "est:robust": 300,
                     "est:cluster": 300, "fit-time": 150, "refused": 100},
           "thorough": {"oracle": 60000, "states": 4000}}
ASSUMPTIONS = ["dispersion is the Pearson estimate with Sum(w) - p degrees of freedom unless given",
               "finite-sample corrections as documented: N/(N-p), times M/(M-1)*(N-1)/N for clusters"]


def plan(tier, seed):
    n = 4500 if tier == "quick" else 30000
    return [{"seed": seed, "i": i} for i in range(n)]


def labels(rng, n):
    """(cluster argument, kind, integer codes)"""
    import pandas as pd
    g = int(rng.choice([2, 3, 5, max(2, n // 3), n]))
    codes = rng.integers(0, g, n)
    codes[:2] = [0, min(1, g - 1)]
    if g == n:
        codes = rng.permutation(n)
    k = int(rng.integers(12))
    perm = rng.permutation(g)
    if k == 0:
        return codes, "0..G-1", codes
    if k == 1:
        v = rng.choice(np.arange(-50, 50 + 20 * g), g, replace=False)
        return v[codes], "gappy ints", codes
    if k == 2:
        return (perm * 1000003 - 7)[codes], "huge ints", codes
    if k == 3:
        return np.array([f"g{c}" for c in perm])[codes], "str", codes
    if k == 4:
        return np.array([f"g{c}" for c in perm], dtype=object)[codes], "object", codes
    if k == 5:
        return (perm / 3.0 - 1.5)[codes], "float", codes
    if k == 6:
        return [int(c) for c in perm[codes]], "list", codes
    if k == 7:
        return pd.Series(perm[codes], index=rng.permutation(n)), "series", codes
    if k == 8:
        return pd.Categorical.from_codes(codes, [f"z{c}" for c in perm]), "categorical", codes
    if k == 9:
        c2 = (codes % 2).astype(bool)
        return c2, "bool", c2.astype(int)
    if k == 10:
        return np.repeat(perm[codes], 2)[::2], "strided", codes
    return (np.datetime64("2020-01-01") + perm.astype("timedelta64[D]"))[codes], "dates", codes


def reference(fam, link, X, y, w, off, b0, b, fi, est, expected, codes, mu=None, phi=None):
    n, p = X.shape
    k = p + fi
    if mu is None:
        mu = link.inverse(X @ b + b0 + (0 if off is None else off))
    eta = link.link(mu)
    sw = w.sum()
    v, vd, d1, d2 = fam.var(mu), fam.var_d(mu), link.d1(eta), link.d2(eta)
    r = y - mu
    if phi is None:
        if abs(sw - k) < 1e-2 * max(1.0, sw):
            raise Skip("no degrees of freedom left")
        phi = np.sum(w * r * r / v) / (sw - k)
    if abs(sw - k) < 1e-2:
        raise Skip("no degrees of freedom left")
    Z = np.hstack([np.ones((n, 1)), X]) if fi else X
    fisher = d1 * d1 / v
    observed = fisher - r * (d2 / v - d1 * d1 * vd / v ** 2)
    wp = w / phi
    Wi = wp * (fisher if (expected or est == "classical") else observed)
    H = (Z * Wi[:, None]).T @ Z
    s = np.sqrt(np.abs(np.diag(H)))
    if not np.all(s > 0):
        raise Skip("zero information")
    Hs = H / s[:, None] / s
    if np.abs(r).max() < 1e-6 * np.abs(y).max():
        raise Skip("perfect fit: residuals are rounding noise")
    if not np.all(np.isfinite(Hs)) or np.linalg.cond(Hs) > 1e12:
        raise Skip("ill-conditioned information")
    kap = np.linalg.cond(Hs)
    Hi = np.linalg.inv(Hs)
    # amplification of rounding in the entries of H (sums of signed terms)
    Ha = (np.abs(Z) * np.abs(Wi)[:, None]).T @ np.abs(Z) / s[:, None] / s
    kap = kap * max(1.0, float(Ha.max()))
    if est == "classical":
        corr = sw / (sw - k)
        V, A, Y = Hi, np.abs(Hi), np.zeros(k)
    else:
        g = (wp * d1 / v * r)[:, None] * Z / s
        # what rounding of the residuals alone can do to a score (leverage-one rows)
        gy = np.abs((wp * d1 / v * (np.abs(y) + np.abs(mu)))[:, None] * Z / s)
        Y = np.abs(Hi) @ gy.sum(0) + np.linalg.cond(Hs) * np.abs(Hi).max() * np.sqrt((g * g).sum())
        if est == "cluster":
            m = codes.max() + 1
            G, Ga = np.zeros((m, k)), np.zeros((m, k))
            np.add.at(G, codes, g)
            np.add.at(Ga, codes, np.abs(g))
            u = len(np.unique(codes))
            corr = u / (u - 1) * (sw - 1) / (sw - k)
        else:
            G, Ga = g, np.abs(g)
            corr = sw / (sw - k)
        V = Hi @ (G.T @ G) @ Hi
        A = np.abs(Hi) @ (Ga.T @ Ga) @ np.abs(Hi)
    V, A = corr * V / s[:, None] / s, np.abs(corr) * A / s[:, None] / s
    Y = np.sqrt(abs(corr)) * Y / s
    return V, np.sqrt(np.abs(np.diag(V))), np.sqrt(np.diag(A)), Y, kap, phi, sw - k > 0


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    rng = harness.rng_for("C12", case["seed"], case["i"])
    kind = ["plain", "plain", "plain", "path", "cv"][case["i"] % 5]
    pr = gen.make_problem(rng, alpha=0.0 if rng.random() < .7 else 10 ** rng.uniform(-3, -1),
                          convex=None if kind == "plain" else True, spread=0.6,
                          cats=None if rng.random() < .7 else 1)
    fc = pr.fc
    if fc.linkname.startswith("tweedie"):
        raise Skip("single-precision link exponent")
    n = pr.data.n
    if case["i"] % 3 == 0:
        # rows without any signal: a linear predictor of exactly zero
        zr = harness.rng_for("C12z", case["seed"], case["i"]).random(n) < .15
        pr.data.cols = [(c[0], c[1], np.where(zr, 0, c[2]), *c[3:]) for c in pr.data.cols]
    drop = bool(pr.data.has_cat and rng.random() < .7)
    X = pr.data.dense(drop)
    p = X.shape[1]
    if p == 0:
        raise Skip("no columns")
    if drop:
        pr.pen = gen.make_penalty(rng, p, alpha=pr.pen["alpha"])
    if pr.wkind == "tiny":
        pr.w = pr.w * 1e4 * rng.choice([1.0, 20.0])
    if pr.wkind == "zeros" and kind == "cv":
        pr.w = None
    fi = bool(rng.random() < (.5 if case["i"] % 3 == 0 else .8)) or fc.limited
    f32 = bool(rng.random() < .12 and not pr.data.has_cat)
    store = "f32" if f32 else (["df", "polars", "tm_cat"][rng.integers(3)] if pr.data.has_cat
                               else gen.STORES[rng.integers(len(gen.STORES))])
    c_rob, c_exp = bool(rng.random() < .5), bool(rng.random() < .5)
    pen = dict(pr.pen)
    kw = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi,
              drop_first=drop, max_iter=200, gradient_tol=1e-6,
              scale_predictors=bool(fi and rng.random() < .2 and not fc.limited))
    if rng.random() < .8:
        kw.update(robust=c_rob, expected_information=c_exp)
    else:
        c_rob, c_exp = True, False
    if kind == "plain":
        est = GeneralizedLinearRegressor(**kw, **pen)
    else:
        a = pen.pop("alpha")
        pen["l1_ratio"] = float(pen["l1_ratio"])
        al = [0.1, max(a, 1e-3), 1e-4]
        if a == 0 and case["i"] % 2:
            al[-1] = 0.0
        if kind == "path":
            est = GeneralizedLinearRegressor(alpha=al, alpha_search=True, **kw, **pen)
        else:
            est = GeneralizedLinearRegressorCV(alphas=al, cv=2, **kw, **pen)
    Xs = pr.data.store(store, drop)
    wa, ya = gen.as_weight_arg(rng, pr.w, n), gen.as_y_arg(rng, pr.y)
    w = pr.wvec() if pr.w is not None else np.ones(n)
    fit_time = rng.random() < .3
    est_kind, cl, clk, codes, expected = None, None, "", None, c_exp

    def draw_kind():
        r = rng.random()
        if r < .4:
            c, ck, cc = labels(rng, n)
            if len(np.unique(cc)) < 2:
                raise Skip("one cluster")
            return "cluster", c, ck, cc
        return ("robust" if r < .7 else "classical"), None, "", None

    fkw = {}
    if fit_time:
        if rng.random() < .4:
            est_kind, cl, clk, codes = "cluster", *labels(rng, n)
            if len(np.unique(codes)) < 2:
                raise Skip("one cluster")
            fkw["clusters"] = cl
        else:
            est_kind = "robust" if c_rob else "classical"
        fkw["store_covariance_matrix"] = True
    try:
        rec = meta.guarded_fit(est, Xs, ya, wa, pr.off, fc, **fkw)
    except np.linalg.LinAlgError:
        raise Skip("singular design said so")
    except ValueError as e:
        s = str(e)
        if "infs or NaNs" in s or "No variation" in s or "in y range" in s:
            raise Skip("separated or overflowing fit said so")
        raise
    if not gen.converged(rec):
        raise Skip("fit warned")
    b, b0 = np.asarray(est.coef_, float), float(est.intercept_)
    if not np.all(np.isfinite(b)):
        raise Skip("non-finite coefficients")
    fam, link = fc.ref_for(est), fc.reflink
    Xr = X.astype(np.float32).astype(float) if f32 else X
    y, off = pr.y, pr.off

    def judge(got, e_kind, e_exp, codes, X, y, w, off, what, mu=None, phi=None, **d):
        with np.errstate(all="ignore"):
            m_ = link.inverse(X @ b + b0 + (0 if off is None else off)) if mu is None else mu
            if fc.kind == "binomial" and (min(m_.min(), (1 - m_).min()) < (3e-3 if f32 else 1e-6)
                                          or meta.cloglog_saturated(fc, X, b0, b, off, w)):
                raise Skip("saturated means")
            if not np.all(np.isfinite(m_)) or fam.power is not None and fam.power > 0 and \
                    (m_.min() < 1e-8 or m_.max() > 1e8):
                raise Skip("means out of range")
            V, sd, sa, sy, kap, ph, pos = reference(fam, link, X, y, w, off, b0, b, fi, e_kind,
                                                e_exp, codes, mu, phi)
        eps = 1.2e-7 if f32 else 2.3e-16
        if kap * eps * 100 > 0.02 or not np.all(np.isfinite(V)):
            raise Skip("ill-conditioned information")
        got = np.asarray(got, float)
        mon.oracle += 1
        if got.shape != V.shape:
            mon.violation(f"{what}: shape {got.shape} instead of {V.shape}", **d)
            return
        rel = (2e-4 if f32 else 1e-8)
        tol = rel * np.outer(sd, sd) + 100 * eps * kap * np.outer(sa, sa)
        ry = 20 * eps * sy
        tol = tol + np.outer(sd, ry) + np.outer(ry, sd) + np.outer(ry, ry)
        if not np.all(np.abs(got - V) <= tol):
            j = np.unravel_index(np.argmax(np.nan_to_num(np.abs(got - V) / tol, nan=np.inf)),
                                 V.shape)
            mon.violation(what, got=got[j], want=V[j], tol=tol[j], at=str(j), kappa=kap,
                          estimator=e_kind, expected=e_exp, family=fc.name, **d)
            return
        mon.check(np.all(np.abs(got - got.T) <= 2 * tol), "covariance matrix is not symmetric", **d)
        if pos:
            ev = np.linalg.eigvalsh((got + got.T) / 2 / np.outer(sd, sd) if sd.min() > 0 else got)
            mon.check(ev[0] >= -(tol / np.outer(sd, sd)).max() * len(b) - 1e-9 if sd.min() > 0 else True,
                      "covariance matrix is not positive semidefinite", smallest=ev[0], **d)
        mon.event("est:" + e_kind)
        mon.state(fc.name, kind, e_kind, clk if e_kind == "cluster" else "", e_exp,
                  "df" if pr.data.has_cat else store, pr.wkind, off is not None,
                  what.split(":")[0][:25])
        return V, sd, tol, pos

    det = dict(store=store, wkind=pr.wkind, fit_intercept=fi, model=kind, has_off=off is not None)
    judged = 0
    if fit_time:
        got = est.covariance_matrix_
        if rng.random() < .5:
            got = est.covariance_matrix()
        r = judge(got, est_kind, expected, codes, Xr, y, w, off,
                  "fit-time covariance differs from its formula", labels=clk, **det)
        if r is not None:
            mon.event("fit-time")
            judged += 1
            V, sd, tol, pos = r
            if pos and np.all(np.diag(got) > 0):
                se = est.std_errors()
                mon.close(se, np.sqrt(np.diag(got)), "std_errors are not the roots of the "
                          "diagonal of the stored matrix", rtol=1e-6 if f32 else 1e-12)
        for bad in (dict(robust=True), dict(clusters=np.arange(n)), dict(dispersion=1.0),
                    dict(sample_weight=np.ones(n)), dict(expected_information=True),
                    dict(mu=np.ones(n)), dict(offset=np.ones(n))):
            if rng.random() < .3:
                refused(mon, est, "re-estimation without data", **bad)
    else:
        mon.check(est.covariance_matrix_ is None, "covariance_matrix_ is set although none was "
                  "requested")
        if rng.random() < .4:
            refused(mon, est, "covariance without data before any was computed")
            refused(mon, est, "storing a covariance without data", store_covariance_matrix=True)

    # ---- after fit, any rows, any estimator
    for rep in range(int(rng.integers(1, 4))):
        e_kind, cl, clk, codes = draw_kind()
        idx, wi, oi = np.arange(n), wa, off
        form = "same rows"
        r = rng.random()
        if r < .35:
            form = "permuted rows"
            idx = rng.permutation(n)
        elif r < .5 and n > 3 * (p + 2):
            form = "other rows"
            idx = rng.integers(0, n, n)
        Xa, yv = Xs, ya
        if form != "same rows":
            Xa, yv = pr.data.take(idx).store(store, drop), y[idx]
            wi = None if pr.w is None else w[idx]
            oi = None if off is None else off[idx]
            if codes is not None:
                codes = codes[idx]
                cl = np.asarray(cl)[idx]
                if len(np.unique(codes)) < 2:
                    continue
        kwc = {}
        ex = c_exp
        if e_kind == "cluster":
            kwc["clusters"] = cl
            if rng.random() < .4:
                kwc["robust"] = bool(rng.random() < .5)
        elif (e_kind == "robust") != c_rob or rng.random() < .5:
            kwc["robust"] = e_kind == "robust"
        if rng.random() < .6:
            ex = bool(rng.random() < .5)
            kwc["expected_information"] = ex
        mu = phi = None
        if rng.random() < .15:
            phi = float(rng.uniform(.3, 4))
            kwc["dispersion"] = phi
        if rng.random() < .15 and not f32:
            with np.errstate(all="ignore"):
                mu = link.inverse(Xr[idx] @ b + b0 + (0 if oi is None else oi) +
                                  (0 if fc.limited else 0.1))
            if not np.all(np.isfinite(mu)):
                continue
            kwc["mu"] = mu
        stored = rng.random() < .3
        if stored:
            kwc["store_covariance_matrix"] = True
        before = est.covariance_matrix_
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter("always")
            try:
                if rng.random() < .5:
                    got = est.covariance_matrix(Xa, yv, wi, oi, **kwc)
                else:
                    got = est.covariance_matrix(X=Xa, y=yv, sample_weight=wi, offset=oi, **kwc)
            except np.linalg.LinAlgError:
                mon.event("singular said so")
                continue
            except ValueError as e:
                with np.errstate(all="ignore"):
                    m_ = link.inverse(Xr[idx] @ b + b0 + (0 if oi is None else oi))
                if "infs or NaNs" in str(e) and not (np.all(fam.var(m_) > 0)
                                                     and np.all(np.isfinite(fam.var(m_)))
                                                     and (fam.power == 0 or np.all(m_ > 0))):
                    mon.event("means outside the domain said so")
                    continue
                raise
        penalised = (pr.pen["alpha"] if kind == "plain" else al[-1] if kind == "path"
                     else est.alpha_) > 0
        said = any("penalized" in str(m_.message) for m_ in said)
        mon.check(said == bool(penalised), "the covariance warns exactly when the fit is "
                  "regularised", warned=said, alpha=pr.pen["alpha"], model=kind)
        if stored:
            mon.check(est.covariance_matrix_ is not None
                      and np.array_equal(est.covariance_matrix_, got, equal_nan=True),
                      "store_covariance_matrix did not store what was returned")
        else:
            mon.check(est.covariance_matrix_ is before, "covariance_matrix overwrote the stored "
                      "matrix without being asked to")
        try:
            r = judge(got, e_kind, ex, codes, Xr[idx], y[idx], w[idx], oi,
                      form + ": covariance differs from its formula", mu, phi, labels=clk,
                      args=sorted(kwc), **det)
        except Skip as e:
            mon.event("unjudged:" + str(e))
            continue
        judged += 1
        if r is None:
            continue
        V, sd, tol, pos = r
        if pos and np.all(np.diag(got) > 0) and rng.random() < .6:
            kwc.pop("store_covariance_matrix", None)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                se = est.std_errors(Xa, yv, wi, oi, **kwc)
            mon.close(se, np.sqrt(np.diag(got)), "std_errors are not the roots of the covariance "
                      "diagonal", rtol=1e-4 if f32 else 1e-10, atol=1e-12 * float(np.max(sd)))
        if e_kind == "cluster" and codes.max() + 1 > 2 and rng.random() < .4:
            # renaming and regrouping labels: only the partition matters
            u = rng.permutation(int(codes.max()) + 1) * 7 - 3
            k2 = dict(kwc, clusters=u[codes])
            k2.pop("store_covariance_matrix", None)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g2 = est.covariance_matrix(Xa, yv, wi, oi, **k2)
            mon.check(np.all(np.abs(g2 - got) <= 2 * tol), "renaming the clusters changes the "
                      "covariance", labels=clk, **det)
            mon.event("relabelled")
    if not judged:
        raise Skip("nothing judged")
    mon.sample({"family": fc.name, "n": n, "p": p, "model": kind, "store": store})


def refused(mon, est, what, **kw):
    mon.event("refused")
    try:
        est.covariance_matrix(**kw)
    except ValueError:
        mon.check(True, "")
    else:
        mon.check(False, what + " was not refused", args=sorted(kw))


if __name__ == "__main__":
    import checks.c12 as mod
    harness.main(mod)
