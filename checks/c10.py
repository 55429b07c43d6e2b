"""C10: every point of a regularisation path is the optimum for its own penalty."""
import numpy as np
from scipy.optimize import brentq

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C10"
RULE = ("alpha_search fits with requested lists (any order, duplicates, zero) or default grids "
        "(n_alphas, min_alpha, min_alpha_ratio); non-trivial = the path's alphas were compared "
        "with the request/definition and every path point was judged by the independent "
        "optimality conditions at its own alpha; distinct = grid form, family/link, solver, "
        "container, penalty kind, offset, intercept, scaling, length")
MINIMUM = {"quick": {"oracle": 6000, "states": 500, "point": 4000, "grid:l1max": 150,
                     "grid:list": 300, "grid:default": 300, "refused": 10},
           "thorough": {"oracle": 60000, "states": 2500}}


def plan(tier, seed):
    n = 9000 if tier == "quick" else 40000
    return [{"seed": seed, "i": i} for i in range(n)]


def null_gradient(fc, fam, X, y, w, off, fi):
    """Gradient of the half deviance at the best intercept-only model (exact)."""
    s = w / w.sum()
    o = np.zeros(len(y)) if off is None else off
    link = fc.reflink

    def score(b):
        eta = b + o
        mu = link.inverse(eta)
        return s * link.d1(eta) * (y - mu) / fam.var(mu)
    b = 0.0
    if fi:
        if off is None:
            b = float(link.link(np.array(meta.null_mu(y, w))))
        else:
            f = lambda t: float(np.sum(score(t)))
            b = brentq(f, -60, 60, xtol=1e-13) if fc.linkname == "log" else \
                float(np.sum(s * (y - o)))
    r = score(b)
    Xc = X - s @ X if fi else X
    return np.abs(r @ Xc), b


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor
    rng = harness.rng_for("C10", case["seed"], case["i"])
    form = ["list", "default", "list", "default", "min_alpha", "unsorted"][case["i"] % 6]
    pr = gen.make_problem(rng, convex=None if rng.random() < 0.2 else True,
                          l1=None if rng.random() < .5 else rng.choice([0.3, 0.7, 1.0]))
    fc, X, y, w = pr.fc, pr.X, np.asarray(pr.y, float), pr.wvec()
    if fc.limited:
        raise Skip("limited link")
    n, p = X.shape
    fi = bool(rng.random() < 0.8)
    scale = bool(fi and rng.random() < 0.25)
    if scale and ref.col_stats(X, w)[1].min() <= 1e-9 * np.abs(X).max():
        raise Skip("constant column with scaling")
    pen = dict(pr.pen)
    pen.pop("alpha")
    l1 = pen["l1_ratio"]
    tol = [None, 1e-6, 1e-8][rng.integers(3)]
    solvers = ["auto", "auto", "irls-cd"] + ([] if l1 else ["irls-ls", "lbfgs"])
    if not l1 and fc.kind == "normal" and fc.linkname == "identity":
        solvers += ["closed-form"] * 2
    kw = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi,
              scale_predictors=scale, gradient_tol=tol, max_iter=300,
              solver=solvers[rng.integers(len(solvers))], alpha_search=True)
    want = None
    if form in ("list", "unsorted"):
        K = int(rng.integers(1, 8))
        want = np.sort(10 ** rng.uniform(-4, 0.5, K))[::-1]
        if rng.random() < 0.2:
            want = np.r_[want, want[-1]]
        if form == "unsorted":
            want = rng.permutation(want)
        kw["alpha"] = [list(want), want, tuple(want)][rng.integers(3)]
    else:
        if fc.kind == "normal" and fc.linkname == "log":
            raise Skip("no default grid")
        nal = int(rng.integers(2, 8))
        kw["n_alphas"] = nal
        if form == "min_alpha":
            kw["min_alpha"] = float(10 ** rng.uniform(-5, 2))
        elif rng.random() < 0.7:
            kw["min_alpha_ratio"] = float(10 ** rng.uniform(-4, -0.5))
    if rng.random() < 0.15:
        kw["selection"], kw["random_state"] = "random", 1
    if rng.random() < 0.1 and fi:
        kw["start_params"] = np.r_[0.0, np.zeros(p)]
    store = ["df_cat", "polars_cat", "tm_cat"][rng.integers(3)] if pr.data.has_cat else \
        ["c", "f", "csc", "csr", "df", "polars", "tm_split", "strided"][rng.integers(8)]
    est = GeneralizedLinearRegressor(**kw, **pen)
    fam0 = fc.ref
    if fc.param is not None:
        fam0 = ref.RefFamily(fc.kind, float(np.float32(fc.param)))
    P1, P2 = ref.p1_vector(pen.get("P1"), p), ref.p2_matrix(pen.get("P2"), p)
    sd = ref.col_stats(X, w)[1]
    exact_null = pr.off is None or (fc.linkname == "log" and fc.ref.power is not None) \
        or fc.name.startswith("normal/identity") or not fi
    amax = None
    if form not in ("list", "unsorted") and l1 > 0 and P1.min() > 0 and exact_null:
        g, _ = null_gradient(fc, fam0, X, y, w, pr.off, fi)
        if scale:
            g = g / sd
        amax = float(np.max(g / (l1 * P1)))
    try:
        rec = gen.fit(est, pr.data.store(store), y, pr.w, pr.off)
    except ValueError as e:
        s = str(e)
        if "generate all zeros" in s and form == "min_alpha":
            mon.event("refused")
            if amax is not None:
                mon.check(kw["min_alpha"] >= amax * (1 - 1e-6),
                          "min_alpha below the largest alpha is refused",
                          min_alpha=kw["min_alpha"], alpha_max=amax)
            return
        if "infs or NaNs" in s or isinstance(e, np.linalg.LinAlgError):
            raise Skip("separated or overflowing fit said so")
        raise
    al = np.asarray(est._alphas, float)
    cp, ip = np.asarray(est.coef_path_, float), np.asarray(est.intercept_path_, float)
    K = len(al)
    mon.check(cp.shape == (K, p) and ip.shape == (K,), "the path has another length than the "
              "alphas", got=[cp.shape, ip.shape], want=K)
    if want is not None:
        mon.event("grid:list")
        mon.close(al, want, "the path's alphas are not the requested ones", rtol=0)
    else:
        mon.event("grid:default")
        mon.check(K == nal, "the default grid has not n_alphas points", got=K, want=nal)
        mon.check(np.all(np.diff(al) < 0) or K == 1, "the default grid is not decreasing", got=al)
        if K > 2:
            lr = np.diff(np.log(al))
            mon.close(lr, np.full(K - 1, lr.mean()), "the default grid is not geometric",
                      rtol=1e-9, atol=1e-12)
        if form == "min_alpha":
            mon.close(al[-1], kw["min_alpha"], "the grid does not end at min_alpha", rtol=1e-9)
        else:
            ratio = kw.get("min_alpha_ratio", 1e-6 if n >= p else 1e-2)
            mon.close(al[-1] / al[0], ratio, "the grid does not span min_alpha_ratio", rtol=1e-9)
        if amax is not None and amax > 1e-12:
            mon.event("grid:l1max")
            mon.close(al[0], amax, "the largest default alpha is not the smallest one that "
                      "zeroes all coefficients", rtol=2e-6, family=fc.name,
                      offset=pr.off is not None, intercept=fi, scale=scale)
    mon.check(np.array_equal(cp[-1], est.coef_) and float(ip[-1]) == float(est.intercept_),
              "coef_ / intercept_ are not the last point of the path")
    if not fi:
        mon.check(np.all(ip == 0), "an intercept appears without fit_intercept", got=ip)
    if not gen.converged(rec):
        mon.event("warned")
        return
    fam = fc.ref_for(est)
    if any(meta.cloglog_saturated(fc, X, ip[k], cp[k], pr.off, w) for k in range(K)):
        raise Skip("cloglog saturated")
    if not mon.check(np.all(np.isfinite(cp)) and np.all(np.isfinite(ip)),
                     "non-finite path without warning", coef=cp):
        return
    worst = 0.0
    for k in range(K):
        got, lim = meta.kkt(X, y, w, pr.off, fam, fc.reflink, ip[k], cp[k], al[k], l1, P1, P2,
                            fi, scale, est._solver, tol)
        worst = max(worst, got / lim)
        mon.event("point")
        mon.check(got <= lim, f"path point is not the optimum for its own alpha "
                  f"({'last' if k == K - 1 else 'first' if k == 0 else 'inner'} point)",
                  kkt=got, limit=lim, k=k, K=K, alpha=al[k], family=fc.name,
                  solver=est._solver, l1=l1)
    mon.state(form, fc.name, est._solver, store, "P1" in pen, "P2" in pen, l1 > 0,
              pr.off is not None, fi, scale, pr.wkind)
    mon.sample({"alphas": al.tolist()[:5], "worst_kkt_over_limit": worst, "family": fc.name})


if __name__ == "__main__":
    import checks.c10 as mod
    harness.main(mod)
