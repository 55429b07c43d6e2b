"""C09: predictions are the inverse link of X w + b + offset, for every selector."""
import warnings

import numpy as np
import scipy.sparse as sp

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C09"
RULE = ("predict / linear_predictor calls on random fitted models (plain, path, CV), new data in "
        "every container, offsets, weights and alpha selectors; non-trivial = the returned array "
        "was judged against numpy's X w + b + offset (and, for path points, against a separate "
        "fit at that alpha); distinct = model type, family/link, container, dtype, selector, "
        "offset and weight form, batch split")
MINIMUM = {"quick": {"oracle": 15000, "states": 1500, "sel:value": 150, "sel:index": 150,
                     "sel:list": 150, "refused": 200, "refit-compared": 40, "batch": 500},
           "thorough": {"oracle": 150000, "states": 5000}}
EPS = np.finfo(float).eps


def plan(tier, seed):
    n = 2500 if tier == "quick" else 20000
    return [{"seed": seed, "i": i} for i in range(n)]


def inverse(fc, eta):
    with np.errstate(all="ignore"):
        if fc.linkname.startswith("tweedie"):
            return np.sign(eta) * np.abs(eta) ** (1 / (1 - float(np.float32(fc.reflink.p))))
        mu = fc.reflink.inverse(eta)
    return mu


def judge(mon, what, got, eta, tol, fc, mult=None, f32=False, **d):
    """got is within the image of [eta - tol, eta + tol] under the inverse link."""
    mon.oracle += 1
    got = np.asarray(got)
    if got.shape != eta.shape:
        mon.violation(f"{what}: shape {got.shape} instead of {eta.shape}", **d)
        return
    g = got.astype(float)
    lo, hi = inverse(fc, eta - tol), inverse(fc, eta + tol)
    lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
    rel = 3e-6 if f32 else 2e-14
    if fc.linkname.startswith("tweedie"):
        if np.any(eta <= tol):
            return
        rel = rel + 2e-6
    if fc.linkname in ("logit", "cloglog"):
        e50 = 50 * (1.2e-7 if f32 else 2.3e-16)
        lo = np.clip(lo, 50 * 2.2e-16 if f32 else e50, 1 - e50) - e50 / 2
        hi = np.clip(hi, e50, 1 - (0 if f32 else e50)) + e50 / 2
    w = 1.0 if mult is None else mult
    lo, hi = lo * w, hi * w
    slack = rel * np.maximum(np.abs(lo), np.abs(hi)) * (1 + np.abs(eta)) + 1e-300
    fin = np.isfinite(lo) & np.isfinite(hi) & (np.maximum(np.abs(lo), np.abs(hi)) <
                                               (1e37 if f32 else 1e300))
    bad = fin & ~((g >= lo - slack) & (g <= hi + slack))
    if bad.any():
        j = tuple(np.argwhere(bad)[0])
        mon.violation(what, got=g[j], lo=lo[j], hi=hi[j], at=str(j), family=fc.name, **d)


def new_columns(rng, data, m, wild):
    """Fresh rows for the same columns."""
    cols = []
    for c in data.cols:
        if c[0] == "num":
            v = np.asarray(c[2])[rng.integers(0, len(c[2]), m)]
            if wild:
                v = v * rng.uniform(-2, 2, m) + rng.normal(size=m) * np.std(c[2])
            cols.append(("num", c[1], v))
        else:
            cols.append(("cat", c[1], rng.integers(0, len(c[3]), m), c[3]))
    return gen.Data(cols, m)


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    rng = harness.rng_for("C09", case["seed"], case["i"])
    kind = ["plain", "path", "cv", "plain", "path"][case["i"] % 5]
    pr = gen.make_problem(rng, convex=True if kind != "plain" else None,
                          alpha=10 ** rng.uniform(-3, 0))
    fc = pr.fc
    drop = bool(pr.data.has_cat and rng.random() < 0.4)
    X = pr.data.dense(drop)
    p = X.shape[1]
    if drop:
        pr.pen = gen.make_penalty(rng, p, alpha=pr.pen["alpha"])
        if p == 0:
            raise Skip("no columns")
    if fc.limited and kind != "plain":
        raise Skip("limited link")
    fi = bool(rng.random() < 0.8) or fc.limited
    pen = dict(pr.pen)
    tight = kind != "plain" and rng.random() < 0.5
    kw = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi,
              drop_first=drop, gradient_tol=1e-9 if tight else 1e-3, max_iter=300 if tight else 30,
              scale_predictors=bool(fi and rng.random() < .2))
    alphas = None
    if kind == "plain":
        est = GeneralizedLinearRegressor(**kw, **pen)
    else:
        pen.pop("alpha")
        pen["l1_ratio"] = float(pen["l1_ratio"])
        na = int(rng.integers(1, 6))
        alphas = 10 ** rng.uniform(-3, 0.5, na)
        if case["i"] % 7 == 0 and na > 1:  # vanishing penalties must be told apart, too
            alphas[rng.integers(na)] = 10 ** rng.uniform(-13, -8)
        if rng.random() < 0.3:
            alphas = None
        if kind == "path":
            if alphas is None:
                kw["n_alphas"], kw["min_alpha_ratio"] = 4, 1e-2
            est = GeneralizedLinearRegressor(alpha=None if alphas is None else list(alphas),
                                             alpha_search=True, **kw, **pen)
        else:
            if alphas is None:
                kw["n_alphas"], kw["min_alpha_ratio"] = 3, 1e-2
            if rng.random() < 0.3:
                pen["l1_ratio"] = [pen["l1_ratio"], 0.5]
            est = GeneralizedLinearRegressorCV(alphas=None if alphas is None else list(alphas),
                                               cv=2, **kw, **pen)
        if alphas is None and fc.kind == "normal" and fc.linkname == "log":
            raise Skip("no default grid")
    fit_store = ["df", "polars"][rng.integers(2)] if pr.data.has_cat else \
        ["c", "f", "csc", "csr", "df", "polars", "tm_split"][rng.integers(7)]
    n_w = pr.w if kind != "cv" or pr.wkind != "zeros" else None
    try:
        rec = meta.guarded_fit(est, pr.data.store(fit_store, drop), pr.y, n_w, pr.off, fc)
    except ValueError as e:
        s = str(e)
        if "infs or NaNs" in s or "No variation in" in s or "in y range" in s \
                or isinstance(e, np.linalg.LinAlgError):
            raise Skip("separated or overflowing fit said so")
        raise
    coef, b0 = np.asarray(est.coef_, float), float(est.intercept_)
    if not np.all(np.isfinite(coef)):
        raise Skip("non-finite coefficients")

    # ---- the documented meaning of every selector
    path = None
    if kind != "plain":
        if kind == "path":
            path = (np.asarray(est.coef_path_, float), np.asarray(est.intercept_path_, float))
            al = np.asarray(est._alphas, float)
        else:
            al = np.asarray(est.alphas_, float)
            if al.ndim == 2:
                al = al[list(np.atleast_1d(est.l1_ratio)).index(est.l1_ratio_)]
            path = (np.asarray(est._refit_coef_path, float),
                    np.asarray(est._refit_intercept_path, float))
            j = int(np.argmin(np.abs(al - est.alpha_)))
            mon.close(path[0][j], coef, "CV: the refit path at the selected alpha is not coef_",
                      rtol=0 if not kw["scale_predictors"] else 1e-12, atol=1e-14)
        if alphas is not None:
            mon.close(al, np.sort(alphas)[::-1] if kind == "cv" else alphas, "the path's alphas are not the requested ones",
                      rtol=1e-12)
        if kind == "path":
            mon.check(np.array_equal(path[0][-1], coef) and path[1][-1] == b0,
                      "coef_ is not the last point of the path")

    for rep in range(3):
        m = int(rng.choice([1, 2, 7, 30]))
        D = new_columns(rng, pr.data, m, rng.random() < 0.4)
        Z = D.dense(drop)
        f32 = False
        if pr.data.has_cat:
            store = ["df", "polars", "tm_cat"][rng.integers(3)]
            A = D.store(store, drop)
        else:
            store = (gen.STORES + ["f32", "f32c", "csc_array", "int"])[
                rng.integers(len(gen.STORES) + 4)]
            if store == "tm_std":
                store = "tm_split"
            if store == "int":
                Z = np.round(Z)
                A = Z.astype([np.int64, np.int32][rng.integers(2)])
            else:
                A = gen.store_dense(Z, store)
                f32 = store in ("f32", "f32c")
            if f32:
                Z = np.asarray(A, float)
        e = float(np.finfo(np.float32).eps) if f32 else EPS

        def eta_of(b, c):
            t = Z @ c + b
            tol = 16 * e * (np.abs(Z) @ np.abs(c) + abs(b)) * (1 + Z.shape[1] / 8) + 1e-300
            return t, tol
        # offset and weights for prediction
        r = rng.random()
        off, ofk, offv = None, "none", 0.0
        if r < 0.5:
            offv = rng.normal(size=m) * 0.5 if not fc.limited else rng.uniform(0, .1, m)
            import pandas as pd
            ofk = ["array", "list", "series", "f32", "int", "scalar", "zero"][rng.integers(7)]
            off = {"array": offv, "list": list(offv),
                   "series": pd.Series(offv, index=np.arange(m)[::-1]),
                   "f32": offv.astype(np.float32), "int": np.round(offv * 4).astype(int),
                   "scalar": float(offv[0]), "zero": np.zeros(m)}[ofk]
            offv = np.asarray(off, float) * np.ones(m)
        sw, swk = None, "none"
        if rng.random() < 0.4:
            swk = ["array", "list", "scalar", "int", "intscalar"][rng.integers(5)]
            w0 = rng.uniform(0, 3, m)
            sw = {"array": w0, "list": list(w0), "scalar": 0.25,
                  "int": rng.integers(0, 4, m) + (m == 1), "intscalar": 3}[swk]
            if np.sum(sw) == 0:
                sw = np.ones(m)
        mult = None if sw is None else np.asarray(sw, float) * np.ones(m)
        # selector
        sel, idx = "default", None
        args = {}
        if kind != "plain" and rng.random() < 0.8:
            K = len(al)
            form = rng.integers(7)
            i1 = int(rng.integers(K))
            many = [int(v) for v in rng.integers(0, K, int(rng.integers(1, 5)))]
            if form == 0:
                sel, idx, args = "value", i1, {"alpha": float(al[i1])}
            elif form == 1:
                sel, idx, args = "value", i1, {"alpha": np.float64(al[i1] * (1 + 1e-9))}
            elif form == 2:
                sel, idx, args = "index", i1, {"alpha_index": i1}
            elif form == 3:
                sel, idx, args = "index", i1, {"alpha_index": np.int64(i1 - K)}
            elif form == 4:
                sel, idx, args = "list", many, {"alpha": [al[k] for k in many]}
            elif form == 5:
                sel, idx, args = "list", many, {"alpha_index": many}
            else:
                sel, idx, args = "list", many, {"alpha_index": np.array(many)}
        what = f"{kind}, {sel}"
        if idx is None:
            eta, tol = eta_of(b0, coef)
            eta, tol = eta + offv, tol + 8 * e * np.abs(eta + offv) + 4 * e * np.abs(offv)
            mu_mult = mult
        else:
            ks = [idx] if np.isscalar(idx) else list(idx)
            et = [eta_of(path[1][k], path[0][k]) for k in ks]
            eta = np.stack([t + offv for t, _ in et], 1)
            tol = np.stack([o + 4 * e * np.abs(offv) + 8 * e * np.abs(t + offv)
                            for t, o in et], 1)
            mu_mult = None if mult is None else mult[:, None]
            if np.isscalar(idx):
                eta, tol = eta[:, 0], tol[:, 0]
                mu_mult = mult
        if ofk == "f32":
            tol = tol + 1e-7 * np.abs(eta) * 0
        d = dict(store=store, offset=ofk, weights=swk, selector=str(args))
        if fc.limited:
            # the link refuses linear predictors that have no mean
            if np.any(eta <= tol * 4) and fc.linkname.startswith("tweedie"):
                continue
        lp = np.asarray(est.linear_predictor(A, off, **args) if rng.random() < .5
                        else est.linear_predictor(A, offset=off, **args))
        mon.check(lp.shape == eta.shape, f"linear_predictor ({what}): wrong shape",
                  got=str(lp.shape), want=str(eta.shape), **d)
        if lp.shape == eta.shape:
            bad = ~(np.abs(lp.astype(float) - eta) <= tol)
            mon.oracle += 1
            if bad.any():
                mon.violation(f"linear_predictor ({what}) is not X w + intercept + offset",
                              got=lp[bad][:3], want=eta[bad][:3], family=fc.name, **d)
        mu = est.predict(A, sample_weight=sw, offset=off, **args)
        mon.check(isinstance(mu, np.ndarray), "predict does not return an array")
        judge(mon, f"predict ({what}) is not the inverse link of the linear predictor", mu, eta,
              tol, fc, mu_mult, f32, **d)
        mon.event("sel:" + sel)
        mon.state(kind, fc.name, store, sel, ofk, swk, fi, drop)
        # ---- row independence: batches, permutations, repetition
        perm = rng.permutation(m)
        cut = int(rng.integers(1, m)) if m > 1 else 0
        if m > 1 and not (mult is not None and (mult[perm[:cut]].sum() == 0
                                                or mult[perm[cut:]].sum() == 0)):
            parts = []
            for rows in (perm[:cut], perm[cut:]):
                s2 = sub(A, rows, D, store, drop, Z)
                parts.append(est.predict(
                    s2, sample_weight=None if sw is None else
                    (sw if np.isscalar(sw) else np.asarray(sw)[rows]),
                    offset=None if off is None else
                    (off if np.isscalar(off) else np.asarray(off)[rows]), **args))
            got = np.concatenate(parts, 0)
            mon.event("batch")
            judge(mon, f"predict ({what}) depends on the other rows of the batch", got,
                  eta[perm], tol[perm], fc, None if mu_mult is None else mu_mult[perm], f32, **d)
        again = est.predict(A, sample_weight=sw, offset=off, **args)
        mon.check(np.array_equal(np.asarray(mu), np.asarray(again), equal_nan=True),
                  f"predict ({what}) is not repeatable", **d)

    refusals(rng, mon, est, kind, X, pr, fit_store, drop, None if path is None else al)

    # ---- a path point is the separate fit at that alpha
    if kind != "plain" and tight and fc.convex and not fc.limited and gen.converged(rec):
        k = int(rng.integers(len(al)))
        pk = {a: b for a, b in pen.items()}
        if kind == "cv":
            pk["l1_ratio"] = float(est.l1_ratio_)
        k2 = {a: b for a, b in kw.items() if a not in ("n_alphas", "min_alpha_ratio")}
        one = GeneralizedLinearRegressor(alpha=float(al[k]), **k2, **pk)
        pk = dict(pk, alpha=float(al[k]))
        try:
            rec1 = meta.guarded_fit(one, pr.data.store(fit_store, drop), pr.y, n_w, pr.off, fc)
            base = meta.BaseFit(one, rec1, fc, X, pr.y, n_w, pr.off, pk, fi,
                                kw["scale_predictors"], 1e-9)
            mar = base.margin("irls-cd", 1e-9)
        except ValueError:
            raise Skip("separate fit failed")
        mu = est.predict(pr.data.store(fit_store, drop), offset=pr.off, alpha=float(al[k]))
        base.check_mu(mon, f"predictions of a {kind} model at alpha differ from a separate fit "
                      "at that alpha", mu, mar, family=fc.name, alpha=float(al[k]))
        mon.event("refit-compared")


def sub(A, rows, D, store, drop, Z):
    if store in ("df", "polars") or store == "tm_cat":
        return D.take(rows).store(store, drop)
    if store == "int":
        return np.asarray(A)[rows]
    return gen.store_dense(Z[rows], store)


def refusals(rng, mon, est, kind, X, pr, store, drop, al):
    A = pr.data.store(store, drop)
    if kind == "plain":
        bad = [{"alpha": 0.1}, {"alpha_index": 0}, {"alpha": [0.1]}, {"alpha_index": [0]}]
    else:
        K = len(al)
        bad = [{"alpha": float(al[0] * 1.01)}, {"alpha": float(al[-1] * 0.9)},
               {"alpha": [float(al[0]), float(al[-1] * 0.5)]},
               {"alpha": float(np.min(al) * 0.7)}, {"alpha_index": K},
               {"alpha_index": -K - 1}, {"alpha_index": [0, K + 2]},
               {"alpha": float(al[0]), "alpha_index": 0}, {"alpha": 0.0, "alpha_index": 0}]
        if K > 1 and np.min(np.abs(np.diff(al)) / al[1:]) < 0.6:
            bad = bad[4:]
    args = bad[rng.integers(len(bad))]
    f = est.predict if rng.random() < 0.5 else est.linear_predictor
    mon.oracle += 1
    try:
        f(A, **args)
    except (ValueError, IndexError):
        mon.event("refused")
    else:
        mon.violation(f"an unavailable selection ({kind}) is accepted", args=str(args),
                      alphas=None if al is None else al)


if __name__ == "__main__":
    import checks.c09 as mod
    harness.main(mod)
