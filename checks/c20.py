"""C20: starting values and warm starts do not change the solution."""
import pickle
import warnings

import numpy as np

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C20"
RULE = ("random strictly convex problems fitted from the default start and again from given start values "
        "(random, far, infeasible, other dtypes), warm-started from earlier fits of other data, "
        "penalties, bounds or intercept settings, and started at the solution itself; non-trivial = both "
        "fits finished and were compared; distinct = law, family/link, container, solver, intercept, "
        "scaling, penalty, bounds")
MINIMUM = {"quick": {"oracle": 5000, "states": 1500, "law:start": 400, "law:warm": 500,
                     "law:at-solution": 400, "law:infeasible": 200, "law:path": 150, "law:cv": 60},
           "thorough": {"oracle": 60000, "states": 6000}}
LAWS = ["start", "start", "warm", "warm", "at-solution", "at-solution", "infeasible", "path", "cv"]


def plan(tier, seed):
    n = 12000 if tier == "quick" else 50000
    return [{"seed": seed, "i": i} for i in range(n)]


def as_start(rng, v):
    r = rng.random()
    if r < .4:
        return v, "array"
    if r < .6:
        return v.tolist(), "list"
    if r < .7:
        return tuple(v.tolist()), "tuple"
    if r < .8:
        return np.repeat(v, 2)[::2], "strided"
    if r < .9:
        import pandas as pd
        return pd.Series(v, index=np.arange(len(v))[::-1]), "series"
    return v.astype(np.float32), "f32"


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor as G
    rng = harness.rng_for("C20", case["seed"], case["i"])
    law = LAWS[case["i"] % len(LAWS)]
    pr = gen.make_problem(rng, convex=True, alpha=10 ** rng.uniform(-3, 0), cats=None)
    fc, X, y, wv = pr.fc, pr.X, np.asarray(pr.y, float), pr.wvec()
    if fc.limited:
        raise Skip("limited link")
    n, p = X.shape
    fi = bool(rng.random() < .75)
    scale = bool(fi and rng.random() < .25)
    pen = dict(pr.pen)
    L1 = pen["l1_ratio"] > 0
    m, sd = meta.std_cols(X, wv, fi)
    lb = ub = None
    if law == "infeasible" or rng.random() < .15:
        lb = np.where(rng.random(p) < .6, -.08 if rng.random() < .5 else 0.0, -np.inf) / sd
        ub = np.where(rng.random(p) < .5, .12, np.inf) / sd
        if rng.random() < .3:
            ub = None
        elif rng.random() < .2:
            lb = None
    bounded = lb is not None or ub is not None
    solver = "irls-cd" if L1 or bounded or rng.random() < .4 else "irls-ls"
    if not L1 and not bounded and rng.random() < .08 and law in ("start", "warm"):
        solver = "lbfgs"
    if not L1 and not bounded and fc.name == "normal/identity" and rng.random() < .2:
        solver = "closed-form"
    kind = ["c", "f", "csc", "df", "tm_split", "f32", "strided"][rng.integers(7)]
    if kind == "f32":
        X = X.astype(np.float32).astype(float)
    single = kind == "f32"
    tol = 1e-9
    kw = dict(fit_intercept=fi, max_iter=400, solver=solver, family=fc.glum_family(rng),
              link=fc.glum_link(rng), scale_predictors=scale, lower_bounds=lb, upper_bounds=ub, **pen)
    Xs = gen.store_dense(X, kind) if kind != "f32" else X.astype(np.float32)
    cold = G(gradient_tol=tol, **kw)
    Xd = gen.store_dense(X, "c")
    recC = meta.guarded_fit(cold, Xd, y, pr.w, pr.off, fc)
    base = meta.BaseFit(cold, recC, fc, X, y, wv, pr.off, pen, fi, scale, tol)
    b0, b = base.b0, base.b
    tolS = 5e-4 if single else tol
    if single and (solver != "irls-cd" and solver != "irls-ls" or law in ("path", "cv")):
        raise Skip("single precision not judged for this solver")
    sig = (law, fc.name, kind, solver, fi, scale, "L1" if L1 else "L2", "P1" in pen,
           np.ndim(pen.get("P2")), bounded)
    mon.event("law:" + law)
    mon.state(*sig)

    def start_vec(size):
        """A start at a bounded distance in the solver's coordinates."""
        d = rng.normal(size=p) * size / np.sqrt(p)
        bs = b + d / sd
        i0 = b0 - np.sum(m * d / sd) + (rng.normal() * size * .5 if fi else 0.0)
        return np.r_[i0, bs] if fi else bs

    def compare(est, rec, what, margin=None, **detail):
        if not gen.converged(rec):
            mon.event("warned")
            return
        mar = margin or base.margin(solver, tolS, single, dmax=.2 if single else .05)
        if meta.compare(mon, what, est, cold, mar, sig=sig, **detail):
            mon.event("agreed")

    if law == "start" or law == "infeasible":
        size = float(rng.choice([.1, 1.0, 2.0]))
        v = start_vec(size)
        if rng.random() < .15:
            v = np.zeros_like(v)
        if law == "infeasible":
            k = int(fi)
            j = rng.random(p) < .6
            j[rng.integers(p)] = True
            v[k:] = np.where(j, v[k:] + rng.choice([-1, 1], size=p) * rng.uniform(.1, 2) / sd, v[k:])
            if fi:
                v[0] = b0 + m @ b - m @ np.clip(v[1:], -np.inf if lb is None else lb,
                                                np.inf if ub is None else ub)
        arg, form = as_start(rng, v)
        if form == "f32":
            v = v.astype(np.float32).astype(float)
        if np.abs(X @ (v[int(fi):] - b) + (v[0] - b0 if fi else 0)).max() > 6:
            raise Skip("start too far away")
        keep = pickle.dumps(arg)
        e = G(gradient_tol=tolS, start_params=arg, **kw)
        rec = meta.guarded_fit(e, Xs, y, pr.w, pr.off, fc)
        mon.check(pickle.dumps(arg) == keep, "fit modified start_params", sig=sig, form=form)
        compare(e, rec, f"starting values ({law}) change the solution", start=v, form=form)
        if law == "infeasible" and bounded:
            told = any("starting value" in str(r.message) for r in rec)
            bs = v[int(fi):]
            out = (lb is not None and np.any(bs < lb - 1e-9 / sd)) or \
                (ub is not None and np.any(bs > ub + 1e-9 / sd))
            inn = (lb is None or np.all(bs >= lb + 1e-5 / sd)) and (ub is None or np.all(bs <= ub - 1e-5 / sd))
            if out:
                mon.check(told, "infeasible starting values were moved without a warning", sig=sig, start=v,
                          lower=lb, upper=ub)
            elif inn:
                mon.check(not told, "feasible starting values are reported as infeasible", sig=sig, start=v,
                          lower=lb, upper=ub)
    elif law == "warm":
        e = G(gradient_tol=1e-4, warm_start=True, **kw)
        r = rng.integers(6)
        first = ["same data", "other data", "other penalty", "other intercept", "other bounds",
                 "two fits"][r]
        X1, y1, w1, o1 = X, y, pr.w, pr.off
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if first == "other data":
                    idx = rng.integers(0, n, n)
                    X1, y1, w1, o1 = X[idx], y[idx], None, None
                    if rng.random() < .5:
                        X1 = X1[:, rng.permutation(p)]
                elif first == "other penalty":
                    e.set_params(alpha=float(10 ** rng.uniform(-2, 1)))
                elif first == "other intercept" and not scale:
                    e.set_params(fit_intercept=not fi)
                elif first == "other bounds" and solver == "irls-cd":
                    e.set_params(lower_bounds=-.01, upper_bounds=.02)
                e.fit(gen.store_dense(X1, "c"), y1, sample_weight=w1, offset=o1)
                if first == "two fits":
                    e.set_params(max_iter=1)
                    e.fit(gen.store_dense(X1, "c"), y1, sample_weight=w1)
            except (ValueError, np.linalg.LinAlgError):
                raise Skip("first fit failed")
        if not np.all(np.isfinite(e.coef_)):
            raise Skip("first fit diverged")
        eta1 = X @ np.asarray(e.coef_) + e.intercept_
        if np.abs(eta1 - X @ b - b0).max() > 6:
            raise Skip("first fit too far away")
        e.set_params(gradient_tol=tolS, **kw)
        rec = meta.guarded_fit(e, Xs, y, pr.w, pr.off, fc)
        compare(e, rec, "a warm start changes the solution", first=first)
    elif law == "at-solution":
        if solver in ("closed-form", "lbfgs"):
            raise Skip("closed-form")
        lam = base.geo[2]
        if not lam > 1e-5:
            raise Skip("flat")
        geo = base.geo
        loose = 1e-3 if single else 1e-5
        if not base.margin(solver, loose, single, dmax=1.0).delta < 1.0:
            raise Skip("wide")
        warm = bool(rng.random() < .4)
        v = np.r_[b0, b] if fi else b.copy()
        if warm:
            e = pickle.loads(pickle.dumps(cold))
            e.set_params(warm_start=True, gradient_tol=loose, max_iter=50)
        else:
            arg, form = as_start(rng, v)
            if form == "f32":
                arg = v
            e = G(gradient_tol=loose, start_params=arg, **dict(kw, max_iter=50))
        rec = meta.guarded_fit(e, Xs, y, pr.w, pr.off, fc)
        floor = geo[3] * (meta.EPS32 if single else 1.0)
        if floor < .1 * loose:
            # a coefficient at its bound may be rounded off it when it is rescaled: the
            # gradient criterion then sees an interior coefficient
            if not bounded:
                mon.check(e.n_iter_ == 0, "starting at the solution still iterates", sig=sig,
                          n_iter=e.n_iter_, warm=warm)
                mon.check(gen.converged(rec), "starting at the solution warns",
                          warnings=[str(r.message)[:80] for r in rec], sig=sig)
        rel = 2e-5 if single else 1e-9
        if bounded:
            rel = max(100 * rel, 10 * rel / lam)
        db = np.abs(e.coef_ - b) * sd
        mon.check(bool(np.all(db <= rel * (1 + np.abs(b * sd)) + 1e-12)) or e.n_iter_ > 0 and not bounded,
                  "starting at the solution moves away from it", sig=sig, got=e.coef_, want=b, warm=warm)
        mon.check(abs(e.intercept_ - b0) <= rel * (1 + abs(b0) + np.sum(np.abs(m * b))) * 10
                  or e.n_iter_ > 0 and not bounded, "starting at the solution moves its intercept", sig=sig,
                  got=e.intercept_, want=b0, warm=warm)
    elif law == "path":
        if solver == "closed-form":
            raise Skip("closed-form")
        al = np.sort(10 ** rng.uniform(-2.5, 0, 3))[::-1]
        k2 = dict(kw, alpha=list(al), alpha_search=True)
        e0, e1 = G(gradient_tol=tol, **k2), G(gradient_tol=tol, start_params=start_vec(1.0), **k2)
        if rng.random() < .4:
            e1 = G(gradient_tol=tol, warm_start=True, **dict(k2, alpha=list(al[:2])))
            meta.guarded_fit(e1, Xs, y, pr.w, pr.off, fc)
            e1.set_params(alpha=list(al))
        r0 = meta.guarded_fit(e0, Xs, y, pr.w, pr.off, fc)
        r1 = meta.guarded_fit(e1, Xs, y, pr.w, pr.off, fc)
        if not (gen.converged(r0) and gen.converged(r1)):
            mon.event("warned")
            return
        for k, a in enumerate(al):
            pk = dict(pen, alpha=float(a))
            bk = meta.BaseFit(e0, r0, fc, X, y, wv, pr.off, pk, fi, scale, tol,
                              b0=float(np.ravel(e0.intercept_path_)[k]), b=e0.coef_path_[k])
            mk = bk.margin(solver)
            meta.compare_coefs(mon, "starting values change the regularisation path",
                               float(np.ravel(e1.intercept_path_)[k]), e1.coef_path_[k], bk.b0, bk.b, mk,
                               sig=sig, step=k)
    else:
        from glum import GeneralizedLinearRegressorCV as CV
        if fc.kind == "binomial" or n < 12 * (p + 1) or solver == "closed-form":
            raise Skip("cross validation on this target")
        if wv.min() == 0:
            raise Skip("zero weights")
        al = [float(v) for v in np.sort(10 ** rng.uniform(-2, 0, 2))[::-1]]
        k2 = {k: v for k, v in kw.items() if k != "alpha"}
        try:
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                c0 = CV(alphas=al, cv=2, gradient_tol=tol, **k2).fit(Xs, y, sample_weight=pr.w, offset=pr.off)
                c1 = CV(alphas=al, cv=2, gradient_tol=tol, start_params=start_vec(.7), **k2)
                c1.fit(Xs, y, sample_weight=pr.w, offset=pr.off)
        except (ValueError, np.linalg.LinAlgError) as e:
            raise Skip("cross validation refused: " + str(e)[:30])
        if not gen.converged(rec):
            mon.event("warned")
            return
        d0, d1 = np.asarray(c0.deviance_path_), np.asarray(c1.deviance_path_)
        mon.check(d0.shape == d1.shape and bool(np.all(np.abs(d0 - d1) <= 1e-4 * (1 + np.abs(d0)))),
                  "starting values change the cross-validated deviance", sig=sig, a=d0, b=d1)
        if c0.alpha_ == c1.alpha_:
            bk = meta.BaseFit(c0, [], fc, X, y, wv, pr.off, dict(pen, alpha=float(c0.alpha_)), fi, scale, tol)
            meta.compare(mon, "starting values change the refitted model", c1, c0, bk.margin(solver), sig=sig)


if __name__ == "__main__":
    import checks.c20 as mod
    harness.main(mod)
