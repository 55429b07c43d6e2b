"""C06: bounds and linear constraints hold and the constrained optimum is reached."""
import numpy as np
from scipy.optimize import nnls

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C06"
RULE = ("random GLM fits with coefficient bounds (one-sided, infinite, equal), inequality systems "
        "A w <= b, or monotone terms (ordered categories, splines, interactions); non-trivial = "
        "the fit finished without a convergence warning and both feasibility and the constrained "
        "optimality conditions (bound-aware subgradient, or non-negative multipliers of the "
        "active constraints) were judged; distinct = kind, family/link, container, solver, "
        "number of active constraints, scaling, intercept")
MINIMUM = {"quick": {"oracle": 5000, "states": 500, "kind:bounds": 700, "kind:ineq": 80,
                     "kind:monotone": 60, "active": 300, "kind:loose": 150, "kind:path": 100},
           "thorough": {"oracle": 50000, "states": 2500}}
KINDS = ["bounds", "bounds", "path", "ineq", "monotone", "monoA", "loose"]
GAP = 2e-2
KNOWN_REF = "monotone-reference-level"


def plan(tier, seed):
    n = 9000 if tier == "quick" else 42000
    return [{"seed": seed, "i": i} for i in range(n)]


def make_bounds(rng, p, sd):
    lb, ub = np.full(p, -np.inf), np.full(p, np.inf)
    for j in range(p):
        r = rng.random()
        s = sd[j]
        if r < 0.25:
            lb[j] = rng.choice([0.0, -0.02, 0.05, -3.0]) / s
        elif r < 0.5:
            ub[j] = rng.choice([0.0, 0.02, -0.05, 3.0]) / s
        elif r < 0.75:
            lb[j] = rng.uniform(-0.3, 0.1) / s
            ub[j] = lb[j] + rng.choice([0.0, 0.01, 0.2]) / s
    return lb, ub


def residual(X, y, w, off, fam, link, b0, b, a, l1, P1, P2, fi, scale, lb=None, ub=None):
    """Bound-aware subgradient norm in the solver's coordinates and its rounding floor."""
    m, sd = meta.std_cols(X, w, fi)
    sub, floor = ref.min_subgrad(X, y, w, off, fam, link, b0, b, a, l1, P1, P2, fi,
                                 sd if scale else None)
    bs = b * sd if scale else b
    k = int(fi)
    # recompute with bounds (min_subgrad's own bound handling uses scaled coefficients)
    if lb is not None or ub is not None:
        tolb = 1e-9 * (1 + np.abs(b))
        g = sub[k:].copy()
        l = np.full(len(b), -np.inf) if lb is None else lb
        u = np.full(len(b), np.inf) if ub is None else ub
        at_l, at_u = b <= l + tolb, b >= u - tolb
        # a coefficient at zero inside the L1 ball and at a bound: sub is already the
        # smallest subgradient; only its feasible direction counts
        g[at_l & (g > 0)] = 0.0
        g[at_u & (g < 0)] = 0.0
        sub = np.concatenate([sub[:k], g])
    if not scale:
        sub = sub.copy()
        sub[k:] /= sd
        floor = floor.copy()
        floor[k:] /= sd
    return sub, floor


def run_case(case, mon):
    rng = harness.rng_for("C06", case["seed"], case["i"])
    kind = KINDS[case["i"] % len(KINDS)]
    if kind == "monotone":
        return monotone(rng, mon)
    if kind in ("ineq", "monoA"):
        return inequalities(rng, mon, kind)
    return bounds(rng, mon, kind)


def bounds(rng, mon, kind):
    from glum import GeneralizedLinearRegressor
    pr = gen.make_problem(rng, convex=None, cats=None if kind == "bounds" else 0,
                          alpha=10 ** rng.uniform(-3, 0))
    fc, X, y, w = pr.fc, pr.X, np.asarray(pr.y, float), pr.wvec()
    if fc.limited:
        raise Skip("limited link")
    p = X.shape[1]
    fi = bool(rng.random() < 0.8)
    scale = bool(fi and rng.random() < 0.25)
    m, sd = meta.std_cols(X, w, fi)
    if scale and ref.col_stats(X, w)[1].min() <= 1e-9 * np.abs(X).max():
        raise Skip("constant column with scaling")
    lb, ub = make_bounds(rng, p, sd)
    if kind == "loose":
        lb, ub = np.full(p, -1e4) / sd, np.full(p, 1e4) / sd
        lb[rng.random(p) < 0.3] = -np.inf
    if not pr.data.has_cat and rng.random() < 0.1:
        stores = ["c"]
    store = ["df_cat", "polars_cat", "tm_cat"][rng.integers(3)] if pr.data.has_cat else \
        ["c", "f", "csc", "csr", "df", "tm_split"][rng.integers(6)]
    pen = dict(pr.pen)
    args = {}
    r = rng.random()
    if r < 0.15:
        args["lower_bounds"] = lb
        ub = None
    elif r < 0.3:
        args["upper_bounds"] = ub
        lb = None
    else:
        args = {"lower_bounds": lb, "upper_bounds": ub}
    if rng.random() < 0.15:
        args = {k: list(v) for k, v in args.items()}
    tol = float(rng.choice([1e-5, 1e-8]))
    kw = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi,
              scale_predictors=scale, max_iter=400, gradient_tol=tol,
              solver=str(rng.choice(["auto", "irls-cd"])),
              **pen)
    if rng.random() < 0.2:
        kw["selection"], kw["random_state"] = "random", 3
    if rng.random() < 0.2:
        st = rng.normal(size=p + int(fi)) / np.r_[np.ones(int(fi)), sd] * 0.2
        if fi:
            st[0] = 0.0
        kw["start_params"] = st
    if kind == "path":
        kw["alpha_search"] = True
        kw["alpha"] = sorted(10 ** rng.uniform(-3, 0, size=4))[::-1]
        if rng.random() < 0.4:
            kw["alpha"], kw["n_alphas"], kw["min_alpha_ratio"] = None, 4, 1e-3
    est = GeneralizedLinearRegressor(**kw, **args)
    if kind == "path" and kw["alpha"] is None and fc.kind == "normal" and fc.linkname == "log":
        raise Skip("no default grid")
    try:
        rec = gen.fit(est, pr.data.store(store), y, pr.w, pr.off)
    except ValueError as e:
        free_col = np.min(ref.p1_vector(pen.get("P1"), p)) == 0 and pen["l1_ratio"] == 1.0
        if "infs or NaNs" in str(e) and ("start_params" in kw or free_col or not fc.convex):
            raise Skip("diverged (wild start or unpenalised separation) and said so")
        raise
    fam = fc.ref_for(est)
    _, l1, P1, P2 = pr.ref_penalty(p)
    pts = [(pen["alpha"], float(est.intercept_), np.asarray(est.coef_, float))]
    if kind == "path":
        al = np.asarray(est._alphas, float) if kw["alpha"] is None else np.asarray(kw["alpha"])
        pts = list(zip(al, np.asarray(est.intercept_path_, float),
                       np.asarray(est.coef_path_, float)))
        mon.check(len(pts) == len(est.coef_path_), "path has another length than the alphas")
    conv = gen.converged(rec)
    nact = 0
    for a, b0, b in pts:
        # feasibility holds whether or not the fit converged
        slack = 1e-10 * (1 + np.abs(b))
        for v, sgn, nm in ((lb, 1, "lower"), (ub, -1, "upper")):
            if v is not None:
                bad = sgn * (v - b) > slack
                mon.check(not bad.any(), f"returned coefficient outside its {nm} bound",
                          coef=b, bound=v, fam=fc.name, store=store)
                nact += int(np.sum(np.abs(v - b) <= slack))
        if not conv:
            continue
        if fc.linkname == "cloglog" and np.abs(X @ b + b0 + (0 if pr.off is None else pr.off)
                                               ).max() > 3.4:
            continue
        sub, floor = residual(X, y, w, pr.off, fam, fc.reflink, b0, b, a, l1, P1, P2, fi,
                              scale, lb, ub)
        got, lim = np.abs(sub).sum(), tol * 1.001 + 4 * floor.sum()
        mon.check(got <= lim, "the fit is not optimal subject to the bounds", kkt=got, limit=lim,
                  fam=fc.name, coef=b, lb=lb, ub=ub, alpha=a, l1=l1, store=store, scale=scale)
    mon.event("kind:" + kind)
    if not conv:
        mon.event("warned")
        return
    if nact:
        mon.event("active")
    mon.state(kind, fc.name, store, min(nact, 3), scale, fi, l1 > 0, pr.wkind)
    mon.sample({"kind": kind, "family": fc.name, "active": nact})
    if kind == "loose" and fc.convex:
        free = GeneralizedLinearRegressor(**{**kw, "gradient_tol": 1e-9, "start_params": None})
        r2 = gen.fit(free, pr.data.store(store), y, pr.w, pr.off)
        base = meta.BaseFit(free, r2, fc, X, y, w, pr.off, pen, fi, scale, 1e-9)
        meta.compare(mon, "bounds that do not bind change the solution", est, free,
                     base.margin("irls-cd", tol), fam=fc.name)


def multiplier_check(mon, what, g, gfloor, A, slack_ok, tol, slack=None, **detail):
    """-g must be a non-negative combination of the active constraint normals."""
    act = A[slack_ok]
    if slack is not None:
        # interior-point solver: stops on the stationarity of its Lagrangian, so a
        # multiplier may sit on a constraint with positive slack; bound the duality gap
        if len(A) == 0:
            lam, res = np.zeros(0), np.abs(g).max()
        else:
            pen = 1e-2 * np.diag(slack)
            lam, _ = nnls(np.vstack([A.T, pen]), np.r_[-g, np.zeros(len(A))])
            res = np.abs(g + A.T @ lam).max()
        gap = float(lam @ slack)
        mon.check(gap <= GAP and res <= tol + 4 * gfloor.sum() + 1e-2 * GAP, what,
                  residual=res, gap=gap, tol=tol, **detail)
        return
    if len(act) == 0:
        res = np.abs(g).max()
    else:
        lam, _ = nnls(act.T, -g)
        res = np.abs(g + act.T @ lam).max()
    mon.check(res <= tol + 4 * gfloor.sum(), what, residual=res, tol=tol, active=len(act),
              **detail)


def inequalities(rng, mon, kind):
    from glum import GeneralizedLinearRegressor
    pr = gen.make_problem(rng, convex=True, cats=0, l1=0.0, alpha=10 ** rng.uniform(-2.5, 0),
                          spread=0.5)
    fc, X, y, w = pr.fc, pr.X, np.asarray(pr.y, float), pr.wvec()
    if fc.limited or fc.linkname == "cloglog":
        raise Skip("limited link")
    p = X.shape[1]
    fi = bool(rng.random() < 0.8)
    scale = bool(fi and rng.random() < 0.2)
    m, sd = meta.std_cols(X, w, fi)
    if ref.col_stats(X, w)[1].min() <= 1e-9 * np.abs(X).max():
        raise Skip("constant column")
    k = int(rng.integers(1, p + 1))
    A = rng.normal(size=(k, p)) * (rng.random((k, p)) < 0.6)
    A[np.arange(k), rng.integers(0, p, k)] += 1.0
    A = A * sd
    b = np.zeros(k)
    solver = "irls-ls-monotonic" if kind == "monoA" else str(rng.choice(["auto", "trust-constr"]))
    if kind == "ineq":
        r = rng.random(k)
        b = np.where(r < 0.4, 0.0, np.where(r < 0.7, rng.uniform(0, 0.2, k), 5.0))
        if k < p and rng.random() < 0.3:
            x0 = rng.normal(size=p) * 0.3 / sd       # feasible, but zero need not be
            b = A @ x0 + rng.uniform(0.0, 0.1, k)
    store = ["c", "f", "csc", "csr", "df", "tm_split"][rng.integers(6)]
    pen = dict(pr.pen)
    tol = 1e-8 if kind == "ineq" else float(rng.choice([1e-4, 1e-7]))
    est = GeneralizedLinearRegressor(
        family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi, solver=solver,
        scale_predictors=scale, max_iter=3000 if kind == "ineq" else 300, gradient_tol=tol,
        A_ineq=A, b_ineq=b, **pen)
    try:
        rec = gen.fit(est, pr.data.store(store), y, pr.w, pr.off)
    except ValueError as e:
        if kind == "ineq" and "infs or NaNs" in str(e):
            raise Skip("trust-constr overflowed and said so")
        raise
    if not gen.converged(rec):
        mon.event("warned:" + kind)
        return
    b0, coef = float(est.intercept_), np.asarray(est.coef_, float)
    fam = fc.ref_for(est)
    a, l1, P1, P2 = pr.ref_penalty(p)
    Az, cz = A / sd, coef * sd
    viol = A @ coef - b
    lim = 1e-6 * (1 + np.abs(Az).sum(1) * 0 + np.abs(b))
    mon.check(np.all(viol <= lim), "inequality constraints A w <= b are violated",
              violation=viol.max(), fam=fc.name, solver=solver, scale=scale)
    sub, floor = residual(X, y, w, pr.off, fam, fc.reflink, b0, coef, a, 0.0, P1, P2, fi, scale)
    k0 = int(fi)
    active = viol >= -1e-4 * (1 + np.abs(b))
    t = 1e-4 if kind == "ineq" else tol * 1.01
    # a slightly inactive constraint carries multiplier barrier / slack in trust-constr
    if fi:
        mon.check(abs(sub[0]) <= t + 4 * floor[0], "constrained fit: the intercept is not optimal",
                  got=sub[0], fam=fc.name, solver=solver)
    gmax = max(np.abs(sub).max(), 1e-8)
    multiplier_check(mon, "the fit is not optimal subject to A w <= b", sub[k0:], floor,
                     Az, active, t * (1 + 3 * gmax) if kind == "ineq" else t * 1.01 + 1e-9 * gmax,
                     slack=np.maximum(-viol, 0) if kind == "ineq" else None,
                     fam=fc.name, solver=solver, scale=scale, viol=viol.tolist(), coef=coef,
                     grad=sub.tolist())
    mon.event("kind:" + kind)
    if active.any():
        mon.event("active")
    mon.state(kind, fc.name, store, int(active.sum()), scale, fi, pr.wkind, p)


def monotone(rng, mon):
    import pandas as pd
    import tabmat as tm
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    n = int(rng.choice([60, 120, 250]))
    fc = gen.pick_family(rng, True, exclude=("ghs",))
    while fc.limited or fc.linkname == "cloglog":
        fc = gen.pick_family(rng, True, exclude=("ghs",))
    nl = int(rng.integers(2, 6))
    pool = [["3", "1", "2", "10", "5"], ["low", "mid", "high", "very high", "extreme"], ["e", "d", "c", "b", "a"],
            ["b2", "b10", "b1", "b30", "b4"], ["<5", "5-10", "10-20", "20-50", "50+"]][
                rng.integers(5)][:nl]
    codes = rng.integers(0, nl, n)
    codes[:nl] = np.arange(nl)
    df = pd.DataFrame({
        "o": pd.Categorical.from_codes(codes, categories=pool, ordered=bool(rng.random() < .7)),
        "k": rng.integers(0, 4, n), "x": rng.uniform(0, 1, n), "z": rng.normal(size=n),
        "g": pd.Categorical.from_codes(np.r_[0, 1, rng.integers(0, 2, n - 2)],
                                       categories=["a", "b"])})
    df.loc[:3, "k"] = np.arange(4)
    choices = [
        ("o + z", {"o"}), ("C(o) + z", {"o"}), ("C(k) + z", {"k"}), ("bs(x, df=5) + z", {"x"}),
        ("z + x", {"z"}), ("bs(x, df=4):g", {"x"}), ("o:g + z", {"o"}), ("o + C(k) + z",
                                                                         {"o", "k"}),
        ("z:g", {"z"}), ("z + o + x", {"o", "x"}), ("C(k):g + z", {"k"}), ("o:g:C(k)", {"o"})]
    sep = ":" if rng.random() < .6 else str(rng.choice(["__x__", " * ", "_by_", "|"]))
    f, vars_ = choices[rng.integers(len(choices))]
    dirs = {v: str(rng.choice(["increasing", "decreasing"])) for v in sorted(vars_)}
    drop = bool(rng.random() < 0.35)
    fi = bool(rng.random() < 0.85)
    off = gen.make_offset(rng, n, fc)
    effect = rng.normal(size=nl)[codes] * 0.6 + 0.5 * np.sin(6 * df["x"].to_numpy()) \
        + 0.2 * df["z"].to_numpy() + 0.3 * rng.normal(size=4)[df["k"].to_numpy()]
    y = gen.make_target(rng, fc, effect[:, None], off)
    w, wk = gen.make_weights(rng, n, ("none", "unif", "int"))
    solver = str(rng.choice(["auto", "irls-ls-monotonic", "trust-constr"], p=[.45, .45, .1]))
    tol = 1e-8 if solver == "trust-constr" else float(rng.choice([1e-4, 1e-7]))
    alpha = 10 ** rng.uniform(-3, -0.5)
    form = f if fi else f + " - 1"
    cv = bool(rng.random() < .1 and fc.kind not in ("binomial",))
    cls = GeneralizedLinearRegressorCV if cv else GeneralizedLinearRegressor
    pen = dict(alphas=[alpha], l1_ratio=0.0, cv=2) if cv else dict(alpha=alpha)
    est = cls(
        family=fc.glum_family(rng), link=fc.glum_link(rng), formula=form, **pen,
        fit_intercept=fi, drop_first=drop, monotonic_constraints=dirs, solver=solver,
        interaction_separator=sep, gradient_tol=tol, max_iter=3000 if solver == "trust-constr" else 300)
    try:
        rec = gen.fit(est, df, y, w, off)
    except np.linalg.LinAlgError:
        raise Skip("singular")
    except ValueError as e:
        if solver == "trust-constr" and "infs or NaNs" in str(e):
            raise Skip("trust-constr overflowed and said so")
        raise
    used = est._solver
    wv = np.ones(n) if w is None else w
    D = tm.from_formula(("1 + " if fi else "") + f, df, include_intercept=False,
                        ensure_full_rank=drop, add_column_for_intercept=False)
    X = np.asarray(D.toarray(), float)
    names = list(D.model_spec.column_names)
    if len(names) != X.shape[1]:
        names = [c for c in names if c != "Intercept"]
    if not gen.converged(rec):
        mon.event("warned:monotone:" + used)
        return
    coef, b0 = np.asarray(est.coef_, float), float(est.intercept_)
    mon.check(coef.shape == (X.shape[1],), "monotone formula fit has another number of columns",
              formula=f)
    if coef.shape != (X.shape[1],):
        return
    # constraints from first principles: columns that differ only in the level of the
    # constrained term, in level (design) order
    rows = []
    for v, d in dirs.items():
        s = 1.0 if d == "increasing" else -1.0
        groups = {}
        for j, nm in enumerate(names):
            parts = nm.split(":")
            mine = [q for q in parts if v in term_vars(q)]
            if not mine:
                continue
            rest = tuple(q for q in parts if q not in mine) + (mine[0].split("[")[0],)
            groups.setdefault(rest, []).append(j)
        for js in groups.values():
            if len(js) == 1:
                r = np.zeros(len(names))
                r[js[0]] = -s
                rows.append(r)
            for i, j in zip(js[:-1], js[1:]):
                r = np.zeros(len(names))
                r[i], r[j] = s, -s
                rows.append(r)
    A = np.array(rows)
    viol = A @ coef
    mon.check(np.all(viol <= 1.01e-6), "coefficients of a monotone term are not in the requested "
              "order", violation=viol.max(), formula=f, dirs=dirs, names=names, coef=coef,
              solver=used, drop_first=drop)
    fam = fc.ref_for(est)
    m, sd = meta.std_cols(X, wv, fi)
    P2 = np.eye(len(names))
    sub, floor = residual(X, np.asarray(y, float), wv, off, fam, fc.reflink, b0, coef, alpha, 0.0,
                          np.ones(len(names)), P2, fi, False)
    k0 = int(fi)
    active = viol >= -1e-4
    gmax = np.abs(sub).max()
    t = 1e-4 * (1 + 3 * gmax) if used == "trust-constr" else tol * 1.01 + 1e-9 * gmax
    multiplier_check(mon, "monotone fit is not optimal subject to its constraints", sub[k0:],
                     floor, A / sd, active, t,
                     slack=np.maximum(-viol, 0) if used == "trust-constr" else None, formula=f, dirs=dirs, coef=coef, solver=used,
                     fam=fc.name, viol=viol.tolist(), grad=sub.tolist())
    mon.event("kind:monotone")
    mon.event("monotone:" + used)
    if active.any():
        mon.event("active")
    mon.event("monotone:cv" if cv else "monotone:plain")
    if sep != ":" and ":" in f:
        mon.event("monotone:separator")
    mon.state("monotone", f, used, drop, fi, fc.name, str(sorted(dirs.values())), sep, cv)
    # the effect itself, including a dropped reference level (coefficient zero)
    if drop and f in ("o + z", "C(o) + z") and fi:
        js = [j for j, nm in enumerate(names) if "z" != nm]
        if len(js) == nl - 1:
            s = 1.0 if dirs["o"] == "increasing" else -1.0
            mon.oracle += 1
            if s * coef[js[0]] < -1e-6:
                mon.finding(KNOWN_REF, "with drop_first the effect of a monotone term may still "
                            "move the wrong way between the dropped reference level and the next",
                            formula=f, coef=coef, direction=dirs["o"])


def term_vars(factor):
    """Variables of a factor name such as 'bs(x, df=5)[2]', 'C(o)[low]', 'z'."""
    base = factor.split("[")[0]
    if "(" in base:
        base = base[base.index("(") + 1:].split(",")[0].rstrip(")")
    return {base.strip()}


if __name__ == "__main__":
    import checks.c06 as m
    harness.main(m)
