"""C04: an offset enters the linear predictor with coefficient one."""
import numpy as np
import scipy.sparse as sp

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C04"
RULE = ("random GLM problems fitted with an offset and again as the equivalent problem: constant "
        "absorbed by the intercept, X*d absorbed by unpenalised coefficients, a column pinned to "
        "one by bounds, exposure turned into weights, and the same shift under cross-validation; "
        "plus prediction with offsets against the reference; non-trivial = both fits finished "
        "without warning and were compared; distinct = law, family/link, container, offset "
        "container, solver, penalty, intercept, scaling")
MINIMUM = {"quick": {"oracle": 5000, "states": 500, "law:constant": 300, "law:shift": 200,
                     "law:column": 200, "law:exposure": 200, "law:cv": 20},
           "thorough": {"oracle": 50000, "states": 2000}}


def plan(tier, seed):
    n = 8000 if tier == "quick" else 60000
    return [{"seed": seed, "i": i} for i in range(n)]


def off_arg(rng, o):
    import pandas as pd
    k = rng.integers(6)
    o = np.asarray(o, float)
    if k == 0:
        return list(o), "list"
    if k == 1:
        return pd.Series(o, index=np.arange(len(o))[::-1] + 3), "series"
    if k == 2:
        return np.repeat(o, 2)[::2], "strided"
    if k == 3:
        v = o.copy()
        v.setflags(write=False)
        return v, "readonly"
    if k == 4 and np.ptp(o) == 0:
        return float(o[0]), "scalar"
    return o, "array"


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    rng = harness.rng_for("C04", case["seed"], case["i"])
    i = case["i"]
    law = "cv" if i % 25 == 7 else ["constant", "shift", "column", "exposure"][i % 4]
    fc = None
    if law == "exposure":
        fc = gen.pick_family(rng, True)
        while not (fc.linkname == "log" and (fc.ref.power or 0) >= 1):
            fc = gen.pick_family(rng, True)
    pr = gen.make_problem(rng, convex=True, alpha=10 ** rng.uniform(-3, 0), fc=fc)
    fc = pr.fc
    if fc.limited and law == "column":
        raise Skip("limited link")
    n, X, y = pr.data.n, pr.X, np.asarray(pr.y, float)
    p = X.shape[1]
    o0 = np.zeros(n) if pr.off is None else pr.off
    fit_intercept = bool(rng.random() < 0.8) or fc.limited or law in ("constant", "cv")
    scale = bool(fit_intercept and rng.random() < 0.25)
    pen = dict(pr.pen)
    L1 = pen["l1_ratio"] > 0
    data = pr.data
    if data.has_cat:
        stores = ["df_cat", "polars_cat", "tm_cat"]
    else:
        stores = ["c", "f", "csc", "csr", "df", "tm_split", "tm_dense", "list"]
    sa = stores[rng.integers(len(stores))]
    solver = "irls-cd" if L1 or rng.random() < 0.5 else "irls-ls"
    if not L1:
        r = rng.random()
        if fc.name == "normal/identity" and r < 0.4:
            solver = "closed-form"
        elif r < 0.1 and not fc.limited:
            solver = "lbfgs"
        elif r < 0.13 and not fc.limited:
            solver = "trust-constr"
    tol = 1e-8 if solver == "trust-constr" else 1e-9
    kw = dict(fit_intercept=fit_intercept, scale_predictors=scale,
              max_iter=2000 if solver == "trust-constr" else 300,
              family=fc.glum_family(rng), link=fc.glum_link(rng), gradient_tol=tol)
    sig = [law, fc.name, sa, solver, "L1" if L1 else "L2", fit_intercept, scale, pr.wkind]

    if law == "cv":
        if L1:
            solver = "irls-cd"
        kw.update(solver=solver if solver != "trust-constr" else "auto", gradient_tol=1e-9)
        if fc.limited or n < 25 or pr.wkind == "zeros":
            raise Skip("not for CV")
        al = sorted(10 ** rng.uniform(-3, 0, size=3))[::-1]
        cv = int(rng.integers(2, 4))
        mk = lambda: GeneralizedLinearRegressorCV(l1_ratio=pen["l1_ratio"], alphas=al, cv=cv,
                                                  **{**kw, "family": fc.glum_family()})
        c = float(rng.uniform(-1, 1))
        A, B = mk(), mk()
        try:
            recA = gen.fit(A, data.store(sa), y, pr.w, off_arg(rng, o0)[0])
        except ValueError as e:
            if "No variation" in str(e):
                raise Skip("a fold without variation in y")
            raise
        recB = gen.fit(B, data.store(sa), y, pr.w, off_arg(rng, o0 + c)[0])
        if not (gen.converged(recA) and gen.converged(recB)):
            raise Skip("CV fit warned")
        mon.event("law:cv")
        mon.state(*sig)
        dA = np.asarray(A.deviance_path_)
        mon.close(B.deviance_path_, dA, "a constant offset changes the cross-validated deviances",
                  rtol=1e-5, atol=1e-6, sig=sig)
        d = np.sort(dA.mean(1).ravel())
        if len(d) < 2 or d[1] - d[0] > 1e-4 * abs(d[0]):
            mon.check(A.alpha_ == B.alpha_, "a constant offset changes the selected alpha",
                      a=A.alpha_, b=B.alpha_)
        # predictions of the CV model use the offset the same way
        mon.close(B.predict(X if not data.has_cat else data.store(sa), offset=o0 + c),
                  fc.reflink.inverse(X @ B.coef_ + B.intercept_ + o0 + c),
                  "CV predictions do not add the offset", rtol=1e-9, atol=1e-12, sig=sig)
        return

    wv = pr.wvec()
    if law == "constant":
        c = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 0.5))
        if fc.limited:
            c = float(rng.uniform(0, 0.2))
        pA, pB = pen, pen
        XB, oB, yB, wB = None, o0 + c, y, pr.w
        back = lambda b0, b: (b0 + c, b)
    elif law == "shift":
        m, sd = meta.std_cols(X, wv, fit_intercept)
        P1 = ref.p1_vector(pen.get("P1"), p).copy()
        P2 = ref.p2_matrix(pen.get("P2"), p).copy()
        free = rng.random(p) < 0.5
        free[rng.integers(p)] = True
        if data.has_cat:      # a full dummy set next to an intercept must stay penalised
            k = 0
            for col in data.cols:
                q = 1 if col[0] == "num" else len(col[3])
                if col[0] == "cat":
                    free[k:k + q] = False
                k += q
            if not free.any():
                raise Skip("no numeric column")
        P1[free] = 0.0
        P2[free, :] = 0.0
        P2[:, free] = 0.0
        pen["P1"], pen["P2"] = P1, P2
        if not L1:
            pen.pop("P1")
        if np.all(free) and rng.random() < 0.5:
            pen = {"alpha": 0.0, "l1_ratio": 0.0}
        elif rng.random() < 0.3 and np.count_nonzero(P2 - np.diag(np.diag(P2))) == 0:
            pen["P2"] = np.diag(P2).copy()
        d = np.where(free, rng.normal(size=p) / sd * 0.4, 0.0)
        if fc.limited:
            raise Skip("limited link")
        XB, oB, yB, wB = None, o0 + X @ d, y, pr.w
        back = lambda b0, b: (b0, b + d)
        pA = pB = pen
    elif law == "column":
        # the offset as an extra unpenalised column whose coefficient is pinned to 1
        if pr.off is None:
            o0 = rng.normal(size=n) * 0.4
        pA = pen
        j = int(rng.integers(p + 1)) if not data.has_cat else p
        P1, P2 = ref.p1_vector(pen.get("P1"), p), ref.p2_matrix(pen.get("P2"), p)
        pB = dict(pen, P1=np.insert(P1, j, 0.0),
                  P2=np.insert(np.insert(P2, j, 0.0, axis=0), j, 0.0, axis=1))
        if not L1:
            pB.pop("P1")
        lb, ub = np.full(p + 1, -np.inf), np.full(p + 1, np.inf)
        lb[j] = ub[j] = 1.0
        pB.update(lower_bounds=lb, upper_bounds=ub)
        XB, oB, yB, wB = np.insert(X, j, o0, axis=1), None, y, pr.w
        back = lambda b0, b: (b0, np.delete(b, j))
    else:
        e = np.exp(rng.normal(size=n) * 0.5 + rng.uniform(-1, 1))
        # glum keeps the power in single precision
        pw = float(np.float32(fc.ref.power))
        o0 = np.log(e)
        wB = wv * e ** (2 - pw)
        yB = y / e
        oB, XB = None, None
        pA = pen
        pB = dict(pen, alpha=pen["alpha"] * wv.sum() / wB.sum())
        if scale:
            raise Skip("weights change the scaling")
        back = lambda b0, b: (b0, b)
    oa, kind = off_arg(rng, o0)
    A = GeneralizedLinearRegressor(solver=solver, **kw, **pA)
    try:
        recA = meta.guarded_fit(A, data.store(sa), y, pr.w, oa, fc)
    except ValueError as e:
        if law == "shift" and (isinstance(e, np.linalg.LinAlgError) or "infs or" in str(e)):
            raise Skip("unpenalised columns not identified")
        raise
    base = meta.BaseFit(A, recA, fc, X, y, wv, o0, pA, fit_intercept, scale,
                        meta.solver_tol(solver, tol, X, y, 1.0, p))
    if law == "column":
        solverB = "auto" if rng.random() < 0.5 else "irls-cd"
    else:
        solverB = solver
    B = GeneralizedLinearRegressor(solver=solverB, **kw, **pB)
    XBs = data.store(sa) if XB is None else gen.store_dense(
        XB, ["c", "f", "csc", "tm_split"][rng.integers(4)])
    ob, kb = (None, "none") if oB is None else off_arg(rng, oB)
    try:
        recB = meta.guarded_fit(B, XBs, yB, wB, ob, fc)
    except np.linalg.LinAlgError:
        if fc.linkname == "cloglog":
            raise Skip("cloglog saturated on the way and said so")
        raise
    if not gen.converged(recB):
        mon.event("warned")
        return
    # the same tolerance means a slightly different bound in the equivalent problem
    ratio = 1.0
    if law == "exposure":
        r = wB.sum() / wv.sum()
        ratio = max(r, 1 / r) * 10
    mar = base.margin(solver if law != "column" else "irls-cd", tol=tol * ratio)
    sig += [kind, kb]
    mon.event("law:" + law)
    mon.event("offset as " + kind)
    mon.state(*sig)
    mon.sample({"sig": [str(s) for s in sig], "delta": mar.delta})
    b0B, bB = back(float(B.intercept_), np.asarray(B.coef_, float))
    msg = {"constant": "a constant offset does more than shift the intercept",
           "shift": "an offset X*d does not shift the unpenalised coefficients by -d",
           "column": "an offset differs from a column with coefficient one",
           "exposure": "a log-exposure offset differs from the exposure-ratio fit"}[law]
    meta.compare_coefs(mon, msg, b0B, bB, base.b0, base.b, mar, sig=sig, n=n)
    if law == "column":
        mon.check(abs(B.coef_[j] - 1.0) <= 1e-9, "coefficient pinned to one by its bounds is not "
                  "one", got=B.coef_[j])
    # prediction: inverse link of linear predictor plus offset, offset in any container
    eta = X @ base.b + base.b0
    onew = rng.normal(size=n) * 0.3 if not fc.limited else rng.uniform(0, 0.2, n)
    if rng.random() < 0.2:
        onew = np.full(n, onew[0])
    po, pk = off_arg(rng, onew)
    with np.errstate(all="ignore"):
        want = fc.reflink.inverse(eta + onew)
    Xs = data.store(sa)
    atol = 1e-10 * (1 + np.abs(X) @ np.abs(base.b) + abs(base.b0) + np.abs(onew)).max()
    mon.close(A.linear_predictor(Xs, offset=po), eta + onew,
              "linear_predictor does not add the offset", rtol=1e-9, atol=atol, sig=sig, kind=pk)
    if not fc.limited:
        mon.close(A.predict(Xs, offset=po), want, "predict does not add the offset",
                  rtol=1e-8, atol=atol * (1 + np.abs(want)).max(), sig=sig, kind=pk)
    if law in ("constant", "shift"):
        # same means => same score and same covariance
        sA = A.score(Xs, y, sample_weight=pr.w, offset=oa)
        sB = B.score(Xs, y, sample_weight=pr.w, offset=ob)
        mon.close(sB, sA, "score does not treat the offset as part of the linear predictor",
                  rtol=1e-6, atol=1e-6, sig=sig)
    if law in ("constant", "shift") and rng.random() < 0.3 and not data.has_cat and mar.delta < 1e-4:
        rob = bool(rng.random() < 0.5)
        kwc = dict(sample_weight=pr.w, robust=rob)
        try:
            cA = A.covariance_matrix(X, y, offset=oa, **kwc)
        except (np.linalg.LinAlgError, ValueError):
            raise Skip("no covariance")
        if np.linalg.cond(cA) < 1e8 and np.all(np.isfinite(cA)):
            cB = B.covariance_matrix(X, y, offset=ob, **kwc)
            if law == "constant" and not L1 or law == "shift":
                mon.event("covariance compared")
                s = np.sqrt(np.abs(np.diag(cA)))
                mon.close(cB / np.outer(s, s), cA / np.outer(s, s),
                          "covariance does not treat the offset as part of the linear predictor",
                          rtol=1e-4, atol=1e-3, sig=sig)


if __name__ == "__main__":
    import checks.c04 as m
    harness.main(m)
