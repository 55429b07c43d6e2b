"""C01: a fit that does not warn returns a minimiser of the documented objective."""
import numpy as np

from vlib import gen, harness, ref
from vlib.harness import Skip

PROPERTY = "C01"
RULE = ("random GLM problems (family/link x storage x weights x offset x penalty spelling x "
        "solver x tolerance x intercept x scaling); non-trivial = the fit finished without a "
        "convergence warning and the independent KKT oracle judged it; distinct = family/link, "
        "solver, penalty shape, storage, weights, offset, intercept, scaling signature")
MINIMUM = {"quick": {"oracle": 1500, "states": 600, "kkt:l1": 300},
           "thorough": {"oracle": 20000, "states": 2000}}


def plan(tier, seed):
    n = 12000 if tier == "quick" else 60000
    return [{"seed": seed, "i": i} for i in range(n)]


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor
    rng = harness.rng_for("C01", case["seed"], case["i"])
    l1 = None
    if rng.random() < 0.1:
        alpha = 0.0
    else:
        alpha = None
    pr = gen.make_problem(rng, alpha=alpha, l1=l1, const=rng.random() < 0.05)
    p = pr.X.shape[1]
    fit_intercept = bool(rng.random() < 0.85) or pr.fc.limited
    scale = bool(fit_intercept and rng.random() < 0.3)
    if alpha == 0.0:
        if pr.data.has_cat or pr.data.n < 8 * (p + 1) or \
                np.linalg.cond(pr.X - pr.X.mean(0) if fit_intercept else pr.X) > 1e4 or \
                pr.fc.kind in ("binomial", "ghs") or any(c[1] == "konst" for c in pr.data.cols):
            pr.pen["alpha"] = 0.01
    L1 = pr.pen["l1_ratio"] > 0 and pr.pen["alpha"] > 0
    solvers = ["auto", "auto", "irls-cd", "irls-cd"]
    if not L1:
        solvers += ["irls-ls", "irls-ls", "lbfgs"]
        if rng.random() < 0.1:
            solvers += ["trust-constr"] * 3
        if pr.fc.kind == "normal" and pr.fc.linkname == "identity":
            solvers += ["closed-form"] * 3
    solver = solvers[rng.integers(len(solvers))]
    tol = [None, 1e-6, 1e-8, 1e-9][rng.integers(4)]
    drop_first = bool(pr.data.has_cat and rng.random() < 0.3)
    if drop_first:
        pr.X = pr.data.dense(True)
        p = pr.X.shape[1]
        for k in ("P1", "P2"):
            pr.pen.pop(k, None)
    if pr.data.has_cat:
        store = ["df_cat", "polars_cat", "tm_cat"][rng.integers(2)]
    else:
        store = gen.STORES[rng.integers(len(gen.STORES) - 3)]
        if rng.random() < 0.15:
            store = ["df", "polars"][rng.integers(2)]
    X = pr.data.store(store, drop_first)
    kw = dict(pr.pen)
    if rng.random() < 0.1:
        kw["selection"] = "random"
        kw["random_state"] = int(rng.integers(1000))
    if rng.random() < 0.05:
        kw["hessian_approx"] = 0.01
    est = GeneralizedLinearRegressor(
        family=pr.fc.glum_family(rng), link=pr.fc.glum_link(rng), solver=solver,
        gradient_tol=tol, max_iter=300 if solver != "trust-constr" else 1500,
        fit_intercept=fit_intercept, scale_predictors=scale, drop_first=drop_first, **kw)
    try:
        rec = gen.fit(est, X, gen.as_y_arg(rng, pr.y), gen.as_weight_arg(rng, pr.w, pr.data.n),
                      pr.off)
    except np.linalg.LinAlgError:
        raise Skip("singular")
    except ValueError as e:
        if pr.fc.limited and "infs or NaNs" in str(e):
            raise Skip("left the link's domain and said so")
        raise
    pshape = "+".join(sorted(k + ("m" if np.ndim(v) == 2 else "v") for k, v in kw.items()
                             if k in ("P1", "P2")))
    sig = (pr.fc.name, est._solver if hasattr(est, "_solver") else solver, "L1" if L1 else "L2",
           pshape, store, pr.wkind, pr.off is not None, fit_intercept, scale)
    judge(mon, est, pr, rec, tol, fit_intercept, scale, sig)


def judge(mon, est, pr, rec, tol, fit_intercept, scale, sig):
    if not gen.converged(rec):
        mon.event("warned")
        mon.event("warned:" + pr.fc.name)
        return
    X, y, w = pr.X, np.asarray(pr.y, float), pr.wvec()
    p = X.shape[1]
    mon.check(np.shape(est.coef_) == (p,), "coef_ has the wrong shape", got=np.shape(est.coef_))
    a, l1, P1, P2 = pr.ref_penalty(p)
    fam = pr.fc.ref_for(est)
    if pr.fc.param is not None:
        mon.check(abs(fam.param - pr.fc.param) < 1e-6, "fitted family has another parameter",
                  got=fam.param, want=pr.fc.param)
    if pr.fc.name == "binomial/cloglog":
        eta = X @ est.coef_ + est.intercept_ + (0 if pr.off is None else pr.off)
        if np.abs(eta[w > 0]).max() > 3.4:   # exp(-exp(3.4)) ~ eps: glum clips and warns
            raise Skip("cloglog saturated")
    sc = None
    if scale:
        _, sc = ref.col_stats(X, w)
        if sc.min() <= 1e-12 * np.abs(X).max():
            raise Skip("constant column with scaling")
    b0, b = float(est.intercept_), np.asarray(est.coef_, float)
    if not mon.check(np.all(np.isfinite(b)) and np.isfinite(b0),
                     "fit without a convergence warning returned non-finite coefficients",
                     coef=b, intercept=b0, sig=sig):
        return
    if not fit_intercept:
        mon.check(b0 == 0, "intercept_ is not 0 with fit_intercept=False", got=b0)
    sub, floor = ref.min_subgrad(X, y, w, pr.off, fam, pr.fc.reflink, b0, b, a, l1, P1, P2,
                                 fit_intercept, sc)
    # The solvers measure the gradient with unit-variance columns ("columns are
    # always scaled to have unit standard deviation"), so the residual is too.
    if not scale:
        _, sd = ref.col_stats(X, w)
        sd = np.where(sd < 1e-6, 1.0, sd)
        k = 1 if fit_intercept else 0
        sub[k:] /= sd
        floor[k:] /= sd
    solver = sig[1]
    t = tol if tol is not None else (1e-8 if solver == "trust-constr" else 1e-4)
    if solver == "closed-form":
        lim = 1e-9 * (1 + np.abs(y).max()) * (1 + np.abs(X).max())
        got = np.abs(sub).max()
    elif solver == "lbfgs":
        # pgtol is a max-norm criterion; factr may stop earlier at ~2e-14 relative decrease
        obj = ref.objective(X, y, w, pr.off, fam, pr.fc.reflink, b0, b, a, l1, P1, P2, sc)
        lim = max(t * 1.01, 2e-5 * max(1.0, abs(obj)) * (1 + np.abs(X).max()))
        got = np.abs(sub).max()
    elif solver == "trust-constr":
        lim = max(10 * t, 1e-4 * (1 + np.abs(X).max()))
        got = np.abs(sub).max()
    else:
        lim = t * 1.001
        got = np.abs(sub).sum()
        if fit_intercept:  # the solver's norm is L1; accept it in full
            got = np.abs(sub).sum()
    lim = lim + 4 * floor.sum()
    mon.event("kkt:" + solver)
    mon.event("kkt:" + pr.fc.name)
    if sig[2] == "L1":
        mon.event("kkt:l1")
    mon.state(*sig)
    mon.sample({"sig": [str(s) for s in sig], "n": pr.data.n, "p": p, "kkt_norm": float(got),
                "limit": float(lim), "coef": b[:4].tolist()})
    mon.check(got <= lim, "fit finished without warning but is not a minimiser of the "
              "documented objective (KKT residual above tolerance)",
              kkt=got, limit=lim, sig=sig, n=pr.data.n, p=p, alpha=a, l1=l1)


if __name__ == "__main__":
    import checks.c01 as m
    harness.main(m)
