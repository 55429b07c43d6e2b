"""C02: storage format, dtype and solver do not change the fitted model."""
import numpy as np

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C02"
RULE = ("random strictly convex GLM problems, each fitted once as a C-ordered float64 array and "
        "again in other containers / dtypes / memory layouts / solvers; non-trivial = both fits "
        "finished without a convergence warning and the coefficients were compared within the "
        "conditioning-derived bound; distinct = family/link, container, dtype, solver, penalty "
        "shape, bounds, intercept/scaling")
MINIMUM = {"quick": {"oracle": 2500, "states": 900, "pair": 1800, "float32": 80,
                     "path pair:cv": 60, "path pair:search": 30},
           "thorough": {"oracle": 25000, "states": 4000}}

NUM_STORES = [s for s in gen.STORES if s != "c"] + ["csc_array", "f32", "f32c", "csc32", "csr32",
                                                    "df32", "tm32", "bool", "int", "int_csc",
                                                    "int_df", "readonly", "reversed"]


def plan(tier, seed):
    n = 9000 if tier == "quick" else 60000
    return [{"seed": seed, "i": i} for i in range(n)]


def store(data, kind, drop_first, X):
    import pandas as pd
    import scipy.sparse as sp
    import tabmat as tm
    if kind == "csc32":
        return sp.csc_matrix(X.astype(np.float32))
    if kind == "csr32":
        return sp.csr_matrix(X.astype(np.float32))
    if kind == "df32":
        return pd.DataFrame(X.astype(np.float32)).rename(columns=lambda c: f"x{c}")
    if kind == "tm32":
        return tm.DenseMatrix(np.asfortranarray(X.astype(np.float32)))
    if kind == "int":
        return X.astype(np.int64)
    if kind == "bool":
        return X.astype(bool)
    if kind == "int_csc":
        return sp.csc_matrix(X.astype(np.int32))
    if kind == "int_df":
        return pd.DataFrame(X.astype(np.int64)).rename(columns=lambda c: f"x{c}")
    if kind == "reversed":
        return np.ascontiguousarray(X[::-1])[::-1]
    if kind == "readonly":
        v = X.copy(order="F")
        v.setflags(write=False)
        return v
    return data.store(kind, drop_first)


def penalty_as(rng, P2):
    """The same penalty matrix in another container."""
    import scipy.sparse as sp
    M = P2.toarray() if sp.issparse(P2) else np.asarray(P2)
    k = ["csc", "csr", "coo", "dia", "lil", "bsr", "dok", "dense", "f", "list"][rng.integers(10)]
    if k == "dense":
        return np.ascontiguousarray(M)
    if k == "f":
        return np.asfortranarray(M)
    if k == "list":
        return M.tolist()
    return getattr(sp, k + ("_array" if rng.random() < .5 else "_matrix"))(M)


def path_case(rng, mon):
    """Regularisation paths and cross-validation: `auto` against a solver named by the user."""
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    n, p = int(rng.integers(30, 90)), int(rng.integers(2, 6))
    X = rng.normal(size=(n, p)) * rng.choice([.3, 1, 5])
    Z = (X - X.mean(0)) / X.std(0)
    fam = str(rng.choice(["normal", "poisson", "gamma", "binomial"]))
    mu = np.exp(.4 * Z[:, 0] - .2 * Z[:, -1])
    y = {"normal": lambda: np.log(mu) + rng.normal(size=n), "poisson": lambda: rng.poisson(mu),
         "gamma": lambda: rng.gamma(2, mu / 2), "binomial": lambda: rng.random(n) < mu / (1 + mu)
         }[fam]().astype(float)
    if len(np.unique(y)) < 2:
        raise Skip("constant response")
    w = rng.uniform(.5, 2, n) if rng.random() < .4 else None
    cv = rng.random() < .6
    l1s = [0.0, .5, 1.0, [0.0, .5], [.5, 0.0], [0.0, 0.0], [1.0, .3], [0.0]]
    l1 = l1s[rng.integers(len(l1s) if cv else 3)]
    alphas = list(np.array([1, .3, .05]) * rng.choice([.02, .2, 1]))
    L1 = bool(np.any(np.asarray(l1) != 0))
    kw = dict(family=fam, l1_ratio=l1, gradient_tol=1e-9, max_iter=300,
              fit_intercept=bool(rng.random() < .8))
    if fam == "gamma":
        kw["link"] = "log"
    if cv:
        kw.update(alphas=alphas, cv=int(rng.integers(2, 5)))
        cls = GeneralizedLinearRegressorCV
    else:
        kw.update(alpha=alphas, alpha_search=True)
        cls = GeneralizedLinearRegressor
    ests = []
    for solver in ["auto"] + (["irls-cd"] if L1 else ["irls-cd", "irls-ls", "lbfgs"]):
        est = cls(solver=solver, **kw)
        rec = gen.fit(est, X, y, w, None)
        if not gen.converged(rec):
            mon.event("path: warned")
            return
        ests.append(est)
    A = ests[0]
    for B in ests[1:]:
        mon.event("path pair:" + ("cv" if cv else "search"))
        mon.state("path", cv, fam, str(l1), B.solver, w is not None)
        tol = 1e-4 if B.solver == "lbfgs" else 1e-5
        pairs = [("coef_path_", np.asarray(A.coef_path_), np.asarray(B.coef_path_))]
        if cv:
            pairs.append(("deviance_path_", np.asarray(A.deviance_path_),
                          np.asarray(B.deviance_path_)))
        for name, a, b in pairs:
            ok = a.shape == b.shape
            if ok:
                u = X.std(0).max() if name == "coef_path_" else 1
                ok = np.abs(a - b).max() * u <= tol * (1 + np.abs(a).max() * u)
            mon.check(ok, "path models differ between solvers", attr=name, a=a.ravel()[:6],
                      b=b.ravel()[:6], solver=[A._solver, B._solver], family=fam, l1=str(l1), cv=cv)


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor
    if case["i"] % 30 == 29:
        return path_case(harness.rng_for("C02path", case["seed"], case["i"]), mon)
    rng = harness.rng_for("C02", case["seed"], case["i"])
    integer = rng.random() < 0.12
    cats = 0 if integer else None
    pr = gen.make_problem(rng, convex=True, cats=cats, alpha=10 ** rng.uniform(-3, 0))
    if integer:
        Xi = np.round(2 * (pr.X - pr.X.mean(0)) / (pr.X.std(0) + 1e-9))
        if pr.fc.linkname == "identity" and pr.fc.kind in ("poisson", "tweedie"):
            Xi = np.abs(Xi)
        if rng.random() < 0.3:
            Xi = (Xi > Xi.mean(0)).astype(float)
        Xi[0] = np.where(np.ptp(Xi, axis=0) == 0, 1 - Xi[0], Xi[0])
        pr.data = gen.Data([("num", f"x{j}", Xi[:, j]) for j in range(Xi.shape[1])], pr.data.n)
        pr.X = Xi
    drop_first = bool(pr.data.has_cat and rng.random() < 0.3)
    if drop_first:
        pr.X = pr.data.dense(True)
        for k in ("P1", "P2"):
            pr.pen.pop(k, None)
    X, y, w = pr.X, np.asarray(pr.y, float), pr.wvec()
    p = X.shape[1]
    fit_intercept = bool(rng.random() < 0.85) or pr.fc.limited
    scale = bool(fit_intercept and rng.random() < 0.25)
    bounds = {}
    if rng.random() < 0.15 and not pr.fc.limited:
        m, sd = meta.std_cols(X, w, fit_intercept)
        if rng.random() < 0.7:
            bounds["lower_bounds"] = np.where(rng.random(p) < .5, -0.05, -10.0) / sd
        if rng.random() < 0.5:
            bounds["upper_bounds"] = np.where(rng.random(p) < .5, 0.1, 10.0) / sd
    L1 = pr.pen["l1_ratio"] > 0 and pr.pen["alpha"] > 0
    base_solver = "irls-cd" if (L1 or bounds or rng.random() < 0.5) else "irls-ls"
    tol = 1e-9
    common = dict(fit_intercept=fit_intercept, scale_predictors=scale, max_iter=300,
                  drop_first=drop_first, **pr.pen, **bounds)

    def make(solver, tol=tol, **kw):
        return GeneralizedLinearRegressor(family=pr.fc.glum_family(rng),
                                          link=pr.fc.glum_link(rng), solver=solver,
                                          gradient_tol=tol, **{**common, **kw})

    semi = np.linalg.eigvalsh(pr.ref_penalty(p)[3]).min() < 1e-6
    A = make(base_solver)
    try:
        recA = gen.fit(A, np.ascontiguousarray(X), y, pr.w, pr.off)
    except ValueError as e:
        if pr.fc.limited and ("infs or NaNs" in str(e)
                              or isinstance(e, np.linalg.LinAlgError)):
            raise Skip("left the link's domain and said so")
        if semi and isinstance(e, np.linalg.LinAlgError):
            raise Skip("columns without a penalty are collinear")
        raise
    if not gen.converged(recA):
        raise Skip("reference fit warned")
    a, l1, P1, P2 = pr.ref_penalty(p)
    fam = pr.fc.ref_for(A)
    b0, b = float(A.intercept_), np.asarray(A.coef_, float)
    sc = ref.col_stats(X, w)[1] if scale else None
    if scale and sc.min() <= 1e-9 * np.abs(X).max():
        raise Skip("constant column with scaling")
    if pr.fc.name == "binomial/cloglog":
        eta = X @ b + b0 + (0 if pr.off is None else pr.off)
        if np.abs(eta).max() > 3.4:
            raise Skip("cloglog saturated")
    geo = meta.problem_geometry(X, y, w, pr.off, fam, pr.fc.reflink, b0, b, a, l1, P1, P2,
                                fit_intercept, scale)
    obj = ref.objective(X, y, w, pr.off, fam, pr.fc.reflink, b0, b, a, l1, P1, P2, sc)
    predA = A.predict(X, offset=pr.off)
    pshape = "+".join(sorted(k + ("m" if np.ndim(v) == 2 else "v") for k, v in pr.pen.items()
                             if k in ("P1", "P2")))
    for _ in range(3):
        solvers = ["auto", "irls-cd", "irls-cd"]
        if not L1 and not bounds:
            solvers += ["irls-ls", "irls-ls", "auto"]
            if not pr.fc.limited:
                solvers += ["lbfgs"]
            if rng.random() < 0.06 and not pr.fc.limited:
                solvers += ["trust-constr"] * 5
            if pr.fc.kind == "normal" and pr.fc.linkname == "identity":
                solvers += ["closed-form"] * 3
        solver = str(rng.choice(solvers))
        if pr.data.has_cat:
            st = str(rng.choice(["df_cat", "polars_cat", "tm_cat", "c", "csc", "f"]))
        else:
            st = str(rng.choice(NUM_STORES))
            if st in ("int", "int_csc", "int_df") and not integer:
                st = "f"
            if st == "bool" and not (integer and set(np.unique(X)) <= {0.0, 1.0}):
                st = "strided"
            if integer and rng.random() < 0.5:
                st = str(rng.choice(["int", "int_csc", "int_df"]))
        single = st in ("f32", "f32c", "csc32", "csr32", "df32", "tm32")
        if single and solver == "trust-constr":   # stops on its step size in float32
            solver = "auto"
        kw = {}
        if rng.random() < 0.2:
            kw["copy_X"] = True
        if rng.random() < 0.15:
            kw["selection"] = "random"
            kw["random_state"] = int(rng.integers(99))
        if rng.random() < 0.15:
            kw["hessian_approx"] = float(rng.choice([0.001, 0.05]))
        if rng.random() < 0.1:
            kw["check_input"] = False
        if np.ndim(common.get("P2")) == 2 or hasattr(common.get("P2"), "toarray"):
            if rng.random() < 0.5:
                kw["P2"] = penalty_as(rng, common["P2"])
                mon.event("P2 container:" + type(kw["P2"]).__name__)
        t = (3e-4 if single else tol)
        if solver == "trust-constr":
            kw["max_iter"] = 2000
            t = 1e-8
        B = make(solver, t, **kw)
        Xs = store(pr.data, st, drop_first, X)
        warg = gen.as_weight_arg(rng, pr.w, pr.data.n)
        if rng.random() < 0.2 and pr.w is not None:
            warg = pr.w.astype(np.float32)
            if not single and not np.array_equal(warg, pr.w):
                warg = pr.w
        off = pr.off
        if off is not None and rng.random() < 0.3:
            import pandas as pd
            off = [list(off), pd.Series(off, index=np.arange(len(off))[::-1]),
                   np.repeat(off, 2)[::2]][rng.integers(3)]
        recB = None
        try:
            recB = gen.fit(B, Xs, gen.as_y_arg(rng, pr.y), warg, off)
        except ValueError as e:
            if (pr.fc.limited or single or semi) and isinstance(e, np.linalg.LinAlgError):
                mon.event("singular step reported")
                continue
            if pr.fc.limited and "infs or NaNs" in str(e):
                mon.event("limited link left its domain")
                continue
            if single and "infs or NaNs" in str(e):
                mon.event("float32 overflow reported")
                continue
            raise
        used = getattr(B, "_solver", solver)
        if not gen.converged(recB):
            mon.event("warned:" + used + (":f32" if single else ""))
            continue
        tb = meta.solver_tol(used, t, X, y, obj, p)
        try:
            mar = meta.Margin(geo, tol, tb, single, fit_intercept=fit_intercept,
                              dmax=0.05 if not single else 0.1)
        except Skip as e:
            mon.event("skipped pair:" + str(e))
            continue
        sig = (pr.fc.name, st, used, "L1" if L1 else "L2", pshape, bool(bounds), fit_intercept,
               scale, pr.off is not None, pr.wkind)
        mon.event("pair")
        mon.event("store:" + st)
        mon.event("solver:" + used)
        if single:
            mon.event("float32")
        mon.state(*sig)
        mon.sample({"sig": [str(s) for s in sig], "delta": mar.delta})
        meta.compare(mon, "the same data in another container / dtype / solver gives another "
                     "model", B, A, mar, sig=sig, n=pr.data.n, p=p)
        # predictions from the container the model was trained on
        predB = np.asarray(B.predict(Xs, offset=pr.off), float)
        et = mar.eta_tol(X)
        mon.oracle += 1
        etaA = X @ b + b0 + (0 if pr.off is None else pr.off)
        lo, hi = pr.fc.reflink.inverse(etaA - et), pr.fc.reflink.inverse(etaA + et)
        if pr.fc.limited or (single and pr.fc.kind == "binomial"
                            and max(predA.max(), 1 - predA.min()) > 1 - 1e-3):
            mon.event("float32 means next to 0/1: not compared")
            continue
        lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
        slack = 1e-9 * np.abs(predA) * (1e3 if single else 1) + 1e-12
        if not np.all((predB >= lo - slack) & (predB <= hi + slack)):
            j = int(np.argmax(np.maximum(lo - predB, predB - hi)))
            mon.violation("predictions differ between containers / solvers beyond tolerance",
                          sig=sig, got=predB[j], lo=lo[j], hi=hi[j])


if __name__ == "__main__":
    import checks.c02 as m
    harness.main(m)
