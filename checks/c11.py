"""C11: cross-validation scores honest held-out fits and refits the best penalty."""
import numpy as np

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C11"
RULE = ("GeneralizedLinearRegressorCV fits; for every fold, l1_ratio and alpha the recorded "
        "coefficients are judged by the optimality conditions on the training rows alone and the "
        "recorded deviances recomputed on the held-out and training rows; selection, refit and "
        "n_jobs independence are judged from the same record; non-trivial = all of a fit's fold "
        "records judged; distinct = splitter, family/link, container, grid, l1 list, weights, "
        "offset, scaling, intercept, bounds")
MINIMUM = {"quick": {"oracle": 12000, "states": 300, "fold-kkt": 3000, "heldout": 4000,
                     "refit": 250, "njobs": 5, "bounds": 15},
           "thorough": {"oracle": 150000, "states": 2000}}


def plan(tier, seed):
    n = 2000 if tier == "quick" else 9000
    return [{"seed": seed, "i": i} for i in range(n)]


class Splits:
    """A fixed list of (train, test) splits as a scikit-learn splitter."""

    def __init__(self, splits):
        self.splits = splits

    def get_n_splits(self, X=None, y=None, groups=None):
        return len(self.splits)

    def split(self, X, y=None, groups=None):
        return iter(self.splits)


def make_splits(rng, n):
    """(cv argument, list of (train, test))."""
    r = rng.integers(5)
    k = int(rng.integers(2, 5))
    if r == 0:
        edges = np.cumsum([n // k + (i < n % k) for i in range(k)])
        lo = np.r_[0, edges[:-1]]
        sp = [(np.r_[0:a, b:n], np.arange(a, b)) for a, b in zip(lo, edges)]
        return k, sp, "int"
    if r == 1:
        from sklearn.model_selection import KFold
        kf = KFold(k, shuffle=True, random_state=int(rng.integers(100)))
        return kf, list(kf.split(np.zeros((n, 1)))), "kfold"
    if r == 2:  # arbitrary, possibly overlapping, unsorted
        sp = []
        for _ in range(k):
            perm = rng.permutation(n)
            c = int(n * rng.uniform(0.5, 0.85))
            sp.append((perm[:c], perm[c:]))
        return Splits(sp), sp, "custom"
    if rng.random() < .35:
        import sklearn.model_selection as ms
        Z = np.zeros((n, 1))
        q = rng.integers(7)
        if q == 0 and n <= 40:
            return ms.LeaveOneOut(), list(ms.LeaveOneOut().split(Z)), "leave one out"
        if q <= 1:
            c = ms.ShuffleSplit(k, test_size=.3, random_state=int(rng.integers(100)))
            return c, list(c.split(Z)), "shuffle split"
        if q == 2:
            c = ms.TimeSeriesSplit(k)
            return c, list(c.split(Z)), "time series"
        if q == 3:
            c = ms.RepeatedKFold(n_splits=k, n_repeats=2, random_state=int(rng.integers(100)))
            return c, list(c.split(Z)), "repeated"
        if q == 4:
            c = ms.PredefinedSplit(rng.permutation(np.arange(n) % (k + 1)) - 1)
            return c, list(c.split(Z)), "predefined"
        sp = [(a, b) for a, b in ms.KFold(k).split(Z)]
        if q == 5:
            return (x for x in sp), sp, "generator"
        if rng.random() < .5:
            return [(np.isin(np.arange(n), a), np.isin(np.arange(n), b)) for a, b in sp], sp, "masks"
        return [(a.tolist(), b.tolist()) for a, b in sp], sp, "index lists"
    perm = rng.permutation(n)
    parts = np.array_split(perm, k)
    sp = [(np.sort(np.concatenate(parts[:i] + parts[i + 1:])), np.sort(parts[i]))
          for i in range(k)]
    if r == 3:
        return sp, sp, "list"
    return Splits(sp), sp, "splitter"


def run_case(case, mon):
    from glum import GeneralizedLinearRegressorCV
    rng = harness.rng_for("C11", case["seed"], case["i"])
    fc = gen.pick_family(rng, convex=True if rng.random() < .9 else None)
    if fc.limited:
        raise Skip("limited link")
    pr = gen.make_problem(rng, fc=fc, n=int(rng.choice([25, 40, 60, 120])),
                          l1=rng.choice([0.0, 0.3, 0.7, 1.0]))
    if pr.wkind == "zeros":
        pr.w, pr.wkind = None, "none"
    X, y, w = pr.X, np.asarray(pr.y, float), pr.wvec()
    n, p = X.shape
    fi = bool(rng.random() < 0.8)
    cv, splits, ck = make_splits(rng, n)
    for tr, te in splits:
        if len(np.unique(y[tr])) < 2 or (fc.kind in ("poisson", "negbin") and y[tr].sum() == 0):
            raise Skip("fold without variation")
        if np.any(np.ptp(X[tr], axis=0) == 0):
            raise Skip("column constant in a fold")
    scale = bool(fi and rng.random() < 0.2)
    pen = dict(pr.pen)
    pen.pop("alpha")
    l1 = pen.pop("l1_ratio")
    l1s = [float(l1)]
    many = rng.random() < 0.35
    if many:
        l1s = [float(v) for v in rng.choice([0.0, 0.2, 0.5, 0.8, 1.0], 2, replace=False)]
        if rng.random() < 0.5:  # all-zero first entry must not change anything
            l1s = sorted(l1s)
    tol = [1e-6, 1e-8][rng.integers(2)]
    kw = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi,
              scale_predictors=scale, gradient_tol=tol, max_iter=300,
              l1_ratio=l1s if many else l1s[0], cv=cv, **pen)
    want = None
    if rng.random() < 0.65:
        want = 10 ** rng.uniform(-3, 0.5, int(rng.integers(1, 6)))
        kw["alphas"] = [want, list(want)][rng.integers(2)]
        want = np.sort(want)[::-1]
    else:
        if fc.kind == "normal" and fc.linkname == "log":
            raise Skip("no default grid")
        kw["n_alphas"] = int(rng.integers(2, 6))
        kw["min_alpha_ratio"] = float(10 ** rng.uniform(-3, -1))
    lb = ub = None
    if rng.random() < 0.12:
        lb = np.where(rng.random(p) < .5, 0.0, -np.inf)
        kw["lower_bounds"] = lb
        mon.event("bounds")
    store = ["df_cat", "polars_cat", "tm_cat"][rng.integers(3)] if pr.data.has_cat else \
        ["c", "f", "csc", "csr", "df", "polars", "tm_split"][rng.integers(7)]
    A = pr.data.store(store)
    est = GeneralizedLinearRegressorCV(**kw)
    try:
        rec = gen.fit(est, A, y, pr.w, pr.off)
    except ValueError as e:
        s = str(e)
        if "infs or NaNs" in s or isinstance(e, np.linalg.LinAlgError):
            raise Skip("separated or overflowing fit said so")
        raise
    al = np.atleast_2d(np.asarray(est.alphas_, float))
    K, F, Ls = al.shape[1], len(splits), len(l1s)
    cp, ip = np.asarray(est.coef_path_, float), np.asarray(est.intercept_path_, float)
    dp, tp = np.asarray(est.deviance_path_, float), np.asarray(est.train_deviance_path_, float)
    shapes = mon.check(cp.shape == (F, Ls, K, p) and ip.reshape(F, Ls, K).shape == (F, Ls, K)
                       and dp.shape == tp.shape == (F, Ls, K) and al.shape[0] == Ls,
                       "recorded paths have the wrong shape", got=[cp.shape, dp.shape, al.shape])
    if not shapes:
        return
    ip = ip.reshape(F, Ls, K)
    if want is not None:
        for row in al:
            mon.close(row, want, "the alphas used are not the requested ones in decreasing order",
                      rtol=0)
    fam = fc.ref_for(est)
    P1, P2 = ref.p1_vector(pen.get("P1"), p), ref.p2_matrix(pen.get("P2"), p)
    conv = gen.converged(rec)
    o = np.zeros(n) if pr.off is None else pr.off

    def wdev(rows, b0, b):
        """(weighted mean deviance on rows, tolerance)"""
        eta = X[rows] @ b + b0 + o[rows]
        if fc.linkname == "logit" and np.abs(eta).max() > 25 or \
                fc.linkname == "cloglog" and np.abs(eta).max() > 3:
            return None, None
        s = w[rows] / w[rows].sum()
        d = fam.unit_dev(y[rows], fc.reflink.inverse(eta))
        de = 64e-16 * (np.abs(X[rows]) @ np.abs(b) + abs(b0) + np.abs(o[rows]) + 1)
        h = np.maximum(de, 1e-9)
        dd = np.abs(fam.unit_dev(y[rows], fc.reflink.inverse(eta + h)) - d) / h
        return float(s @ d), float(s @ (dd * de)) + 1e-11 * float(s @ np.abs(d)) + 1e-14
    for f, (tr, te) in enumerate(splits):
        for li in range(Ls):
            for k in range(K):
                b0, b = ip[f, li, k], cp[f, li, k]
                d, t = wdev(te, b0, b)
                if d is not None and np.isfinite(d):
                    mon.event("heldout")
                    mon.check(abs(dp[f, li, k] - d) <= t, "a recorded held-out deviance is not "
                              "the deviance of that fold's fit on the held-out rows",
                              got=dp[f, li, k], want=d, tol=t, family=fc.name, fold=f, splitter=ck,
                              offset=pr.off is not None, weights=pr.wkind)
                d, t = wdev(tr, b0, b)
                if d is not None and np.isfinite(d):
                    mon.check(abs(tp[f, li, k] - d) <= t, "a recorded training deviance is not "
                              "the deviance of that fold's fit on the training rows",
                              got=tp[f, li, k], want=d, tol=t, family=fc.name)
                if not conv or lb is not None:
                    continue
                if meta.cloglog_saturated(fc, X[tr], b0, b, None if pr.off is None else o[tr],
                                          w[tr]):
                    continue
                got, lim = meta.kkt(X[tr], y[tr], w[tr], None if pr.off is None else o[tr], fam,
                                    fc.reflink, b0, b, al[li, k], l1s[li], P1, P2, fi, scale,
                                    est._solver, tol)
                mon.event("fold-kkt")
                mon.check(got <= lim, "a fold's path point is not the optimum on its training "
                          "rows", kkt=got, limit=lim, fold=f, alpha=al[li, k], l1=l1s[li],
                          family=fc.name, splitter=ck)
    # ---- selection
    avg = dp.mean(0)
    li = l1s.index(float(est.l1_ratio_)) if float(est.l1_ratio_) in l1s else -1
    mon.check(li >= 0, "l1_ratio_ is not one of the candidates", got=est.l1_ratio_)
    kk = np.flatnonzero(al[li] == float(est.alpha_))
    if mon.check(len(kk) > 0, "alpha_ is not on the grid", got=est.alpha_, grid=al[li]):
        if np.all(np.isfinite(avg)):
            mon.check(min(avg[li, k] for k in kk) <= avg.min() + 1e-15 + 1e-12 * abs(avg.min()),
                      "the selected penalty does not minimise the mean held-out deviance",
                      chosen=avg[li, kk[0]], best=avg.min(), grid=avg)
    # ---- refit
    b0, b = float(est.intercept_), np.asarray(est.coef_, float)
    if conv and not meta.cloglog_saturated(fc, X, b0, b, pr.off, w):
        if lb is None:
            got, lim = meta.kkt(X, y, w, pr.off, fam, fc.reflink, b0, b, float(est.alpha_),
                                float(est.l1_ratio_), P1, P2, fi, scale, est._solver, tol)
            mon.event("refit")
            mon.check(got <= lim, "the final model is not the optimum on all data at the "
                      "selected penalty", kkt=got, limit=lim, family=fc.name,
                      alpha=est.alpha_, l1=est.l1_ratio_, solver=est._solver)
        else:
            mon.check(np.all(b >= lb - 1e-12) and np.all(cp >= lb - 1e-12),
                      "a bound is violated in the final or a fold model", coef=b)
    mu = est.predict(A, offset=pr.off)
    eta = X @ b + b0 + o
    if np.abs(eta).max() < 15 and fc.linkname != "cloglog":
        mon.close(mu, fc.reflink.inverse(eta), "predict does not use the refitted model",
                  rtol=1e-10, atol=1e-12)
    # ---- parallel jobs
    if rng.random() < 0.03:
        import joblib
        if ck == "generator":   # used up by the first fit
            kw["cv"] = splits
        two = GeneralizedLinearRegressorCV(n_jobs=2, **kw)
        try:
            with joblib.parallel_config(backend="loky", inner_max_num_threads=1):
                gen.fit(two, A, y, pr.w, pr.off)
        finally:
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True)
        mon.event("njobs")
        for a in ("coef_", "intercept_", "alpha_", "l1_ratio_", "deviance_path_", "coef_path_",
                  "intercept_path_", "train_deviance_path_", "alphas_"):
            mon.close(getattr(two, a), getattr(est, a), f"{a} depends on n_jobs", rtol=1e-9,
                      atol=1e-12)
    mon.state(ck, fc.name, store, want is not None, many, pr.wkind, pr.off is not None, scale, fi,
              lb is not None, est._solver)
    mon.sample({"folds": F, "alphas": al.tolist()[0][:4], "mean_dev": avg.tolist()[0][:4],
                "alpha_": float(est.alpha_)})


if __name__ == "__main__":
    import checks.c11 as mod
    harness.main(mod)
