"""C05: estimates are equivariant to column order, scale and shift."""
import numpy as np

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C05"
RULE = ("random strictly convex GLM problems fitted as given and again with columns permuted, "
        "rescaled (penalties and bounds rescaled with them), shifted, rescaled under "
        "scale_predictors, standardised by hand, or with constant columns added; non-trivial = "
        "both fits finished without warning and were compared; distinct = law, family/link, "
        "containers, solver, penalty shape, bounds, intercept, scaling")
MINIMUM = {"quick": {"oracle": 4000, "states": 800, "law:permute": 200, "law:scale": 200,
                     "law:shift": 200, "law:autoscale": 150, "law:byhand": 150,
                     "law:constant": 150, "units far apart": 30},
           "thorough": {"oracle": 40000, "states": 3000}}
LAWS = ["permute", "scale", "shift", "autoscale", "byhand", "constant"]


def plan(tier, seed):
    n = 15000 if tier == "quick" else 60000
    return [{"seed": seed, "i": i} for i in range(n)]


def run_case(case, mon):
    import scipy.sparse as sp
    from glum import GeneralizedLinearRegressor
    rng = harness.rng_for("C05", case["seed"], case["i"])
    law = LAWS[case["i"] % len(LAWS)]
    pr = gen.make_problem(rng, convex=True, alpha=10 ** rng.uniform(-3, 0),
                          cats=0 if law != "permute" else None)
    fc, n, X, y, wv = pr.fc, pr.data.n, pr.X, np.asarray(pr.y, float), pr.wvec()
    p = X.shape[1]
    fit_intercept = True if law in ("shift", "byhand", "autoscale") else \
        bool(rng.random() < 0.8) or fc.limited
    scale = law == "autoscale" or law in ("permute", "shift") and fit_intercept \
        and bool(rng.random() < 0.3)
    pen = dict(pr.pen)
    L1 = pen["l1_ratio"] > 0
    P1, P2 = ref.p1_vector(pen.get("P1"), p), ref.p2_matrix(pen.get("P2"), p)
    m, sd = meta.std_cols(X, wv, fit_intercept)
    lb = ub = None
    if rng.random() < 0.2 and not fc.limited and law != "constant":
        lb = np.where(rng.random(p) < .5, -0.05, -np.inf) / sd
        ub = np.where(rng.random(p) < .5, 0.1, np.inf) / sd
    solver = "irls-cd" if L1 or lb is not None or rng.random() < 0.5 else "irls-ls"
    if not L1 and lb is None and fc.name == "normal/identity" and rng.random() < 0.3:
        solver = "closed-form"
    if not L1 and lb is None and not fc.limited and rng.random() < 0.06:
        solver = "lbfgs"
    stores = ["c", "f", "csc", "csr", "df", "tm_split", "tm_dense", "strided"]
    sa, sb = (stores[rng.integers(len(stores))] for _ in range(2))
    kw = dict(fit_intercept=fit_intercept, max_iter=300, solver=solver, gradient_tol=1e-9,
              family=fc.glum_family(rng), link=fc.glum_link(rng))

    def build(pn, l, u, sc):
        return GeneralizedLinearRegressor(scale_predictors=sc, lower_bounds=l, upper_bounds=u,
                                          **kw, **pn)

    A = build(pen, lb, ub, scale)
    recA = meta.guarded_fit(A, gen.store_dense(X, sa), y, pr.w, pr.off, fc)
    base = meta.BaseFit(A, recA, fc, X, y, wv, pr.off, pen, fit_intercept, scale, 1e-9)
    b0, b = base.b0, base.b
    mar = base.margin(solver)
    sig = (law, fc.name, sa, sb, solver, "L1" if L1 else "L2",
           "P1" in pen, np.ndim(pen.get("P2")), lb is not None, fit_intercept, scale)

    if law == "permute":
        q = rng.permutation(p)
        penB = dict(pen, P2=P2[np.ix_(q, q)])
        if L1:
            penB["P1"] = P1[q]
        XB, lB, uB = X[:, q], None if lb is None else lb[q], None if ub is None else ub[q]
        inv = np.argsort(q)
        back = lambda e: (float(e.intercept_), e.coef_[inv])
        scB = scale
    elif law == "scale":
        c = 10 ** rng.uniform(-3, 3, size=p) * rng.choice([1, 1, -1], size=p)
        if rng.random() < 0.2:
            c = 2.0 ** rng.integers(-6, 7, size=p)
        penB = dict(pen, P2=P2 / c[:, None] ** -1 / c[None, :] ** -1)
        penB["P2"] = P2 * c[:, None] * c[None, :]
        if L1:
            penB["P1"] = P1 * np.abs(c)
        if rng.random() < 0.3:
            penB["P2"] = sp.csc_matrix(penB["P2"])
        XB = X * c
        lB = uB = None
        if lb is not None:
            lB = np.where(c > 0, lb / c, ub / c)
            uB = np.where(c > 0, ub / c, lb / c)
        back = lambda e: (float(e.intercept_), e.coef_ * c)
        scB = scale
    elif law == "shift":
        d = rng.normal(size=p) * sd * 10 ** rng.uniform(-1, 1.5)
        if sa in ("csc", "csr") or sb in ("csc", "csr"):
            d = d * (rng.random(p) < 0.5)
        XB, penB, lB, uB, scB = X + d, pen, lb, ub, scale
        back = lambda e: (float(e.intercept_) + d @ e.coef_, e.coef_)
    elif law == "autoscale":
        c = 10 ** rng.uniform(-2.5, 2.5, size=p) * rng.choice([1, 1, -1], size=p)
        if "P2" in pen and np.ndim(pen["P2"]) == 2:
            c = np.abs(c)
        if rng.random() < 0.25:  # units that are orders of magnitude apart
            c[rng.integers(p)] *= 10 ** rng.uniform(5, 9)
            mon.event("units far apart")
        XB, penB, scB = X * c, pen, True
        lB = uB = None
        if lb is not None:
            lB = np.where(c > 0, lb / c, ub / c)
            uB = np.where(c > 0, ub / c, lb / c)
        back = lambda e: (float(e.intercept_), e.coef_ * c)
    elif law == "byhand":
        # A: unscaled on hand-standardised data; B: scale_predictors on the raw data
        sd2 = ref.col_stats(X, wv)[1]
        if sd2.min() <= 1e-9 * np.abs(X).max():
            raise Skip("constant column")
        Z = (X - m) / sd2
        lZ, uZ = (None, None) if lb is None else (lb * sd2, ub * sd2)
        A = build(pen, lZ, uZ, False)
        recA = meta.guarded_fit(A, gen.store_dense(Z, sa if sa[:2] != "cs" else "c"), y, pr.w,
                                pr.off, fc)
        base = meta.BaseFit(A, recA, fc, Z, y, wv, pr.off, pen, True, False, 1e-9)
        b0, b = base.b0, base.b
        mar = base.margin(solver)
        XB, penB, lB, uB, scB = X, pen, lb, ub, True
        back = lambda e: (float(e.intercept_) + m @ e.coef_, e.coef_ * sd2)
    else:  # constant columns never harm the others
        k = int(rng.integers(p + 1))
        val = float(rng.choice([0.0, 1.0, -3.0, 1e-3, 250.0]))
        XB = np.insert(X, k, val, axis=1)
        P2c = np.insert(np.insert(P2, k, 0, axis=0), k, 0, axis=1)
        P2c[k, k] = float(rng.uniform(0.5, 2))
        penB = dict(pen, P2=P2c)
        if L1:
            penB["P1"] = np.insert(P1, k, 1.0)
        if rng.random() < 0.4 and "P1" not in pen and "P2" not in pen:
            penB = dict(pen)
        lB = uB = None
        scB = bool(fit_intercept and rng.random() < 0.4)
        B = build(penB, None, None, scB)
        recB = meta.guarded_fit(B, gen.store_dense(XB, sb), y, pr.w, pr.off, fc)
        bad = not (np.all(np.isfinite(B.coef_)) and np.isfinite(B.intercept_))
        mon.check(not bad, "a constant column leads to non-finite coefficients", coef=B.coef_,
                  sig=sig, value=val, scale=scB)
        mon.event("law:constant")
        mon.state(*sig, scB, val)
        if not gen.converged(recB):
            mon.event("warned")
            return
        bB = np.delete(B.coef_, k)
        if not scB and (fit_intercept or val == 0.0):
            mon.check(abs(B.coef_[k] * val) <= (1e-6 + base.margin(solver).delta) * 50,
                      "a penalised constant column takes over the intercept", got=B.coef_[k],
                      value=val, sig=sig)
        if not scB and (fit_intercept or val == 0.0):
            meta.compare_coefs(mon, "a constant column changes the other coefficients",
                               float(B.intercept_) + val * B.coef_[k], bB, b0, b, mar, sig=sig,
                               value=val)
        return
    B = build(penB, lB, uB, scB)
    recB = meta.guarded_fit(B, gen.store_dense(XB, sb), y, pr.w, pr.off, fc)
    if not gen.converged(recB):
        mon.event("warned")
        return
    mon.event("law:" + law)
    mon.state(*sig)
    mon.sample({"sig": [str(s) for s in sig], "delta": mar.delta})
    b0B, bB = back(B)
    msg = {"permute": "permuting columns does not permute the coefficients",
           "scale": "rescaling a column does not rescale its coefficient",
           "shift": "shifting a column changes more than the intercept",
           "autoscale": "with scale_predictors, rescaling a column changes the model",
           "byhand": "scale_predictors differs from fitting hand-standardised data"}[law]
    # rounding caused by the transformation itself
    if law == "shift":
        mar.rel = max(mar.rel, 1e-11 * (1 + np.abs(d / sd).max()))
        mar.intercept += 1e-12 * np.abs(d * b).sum()
        mar.delta += 1e-9 * (1 + np.abs(d / sd).max() ** 2) * 1e-4 / max(base.geo[2], 1e-6)
        mar.coef = mar.delta / sd
        mar.intercept = max(mar.intercept, mar.delta * (1 + np.sum(np.abs(m) + np.abs(d)) / sd.min()))
    meta.compare_coefs(mon, msg, b0B, bB, b0, b, mar, sig=sig, n=n)
    Xp = {"byhand": X}.get(law, None)
    base.check_mu(mon, msg + " (predictions)", B.predict(gen.store_dense(XB, sb), offset=pr.off),
                  mar, sig=sig)


if __name__ == "__main__":
    import checks.c05 as m
    harness.main(m)
