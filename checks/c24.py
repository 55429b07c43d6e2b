"""C24: iteration counts, diagnostics and convergence warnings describe what happened."""
import warnings

import numpy as np

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C24"
RULE = ("random problems refitted with every iteration budget up to convergence: the trace of a fit is "
        "compared with the models its truncations return, the warnings with the optimality conditions "
        "at the returned coefficients")
ASSUMPTIONS = ("lbfgs and trust-constr keep no trace: their iteration counts and warnings are judged, "
               "within the slack of their stopping rules")
MINIMUM = {"quick": {"oracle": 15000, "states": 800, "law:trace": 500, "law:default": 250,
                     "law:path": 150, "law:other": 150, "truncated": 1000, "iterates": 3000,
                     "stopped early": 400, "well-posed": 300, "step tolerance": 15, "report": 100},
           "thorough": {"oracle": 200000, "states": 5000}}
LAWS = ["trace", "trace", "trace", "default", "default", "path", "other", "mono"]
EPS = np.finfo(float).eps


def plan(tier, seed):
    n = 12000 if tier == "quick" else 40000
    return [{"seed": seed, "i": i} for i in range(n)]


def conv_warnings(rec):
    from sklearn.exceptions import ConvergenceWarning
    return [str(r.message) for r in rec if issubclass(r.category, ConvergenceWarning)
            or "lbfgs failed" in str(r.message)]


class Prob:
    """Reference view of one problem in the coordinates the solver iterates in."""

    def __init__(self, pr, fi, scale, lb=None, ub=None):
        self.pr, self.fi, self.scale = pr, fi, scale
        self.X, self.y, self.w = pr.X, np.asarray(pr.y, float), pr.wvec()
        p = self.X.shape[1]
        self.m, self.sd = meta.std_cols(self.X, self.w, fi)
        if scale:
            sc = ref.col_stats(self.X, self.w)[1]
            if sc.min() <= 1e-6 * np.abs(self.X).max():
                raise Skip("constant column with scaling")
            self.sc = sc
        else:
            self.sc = None
        self.lb, self.ub = lb, ub
        self.P1, self.P2 = ref.p1_vector(pr.pen.get("P1"), p), ref.p2_matrix(pr.pen.get("P2"), p)
        self.l1 = pr.pen.get("l1_ratio", 0.0)

    def alpha(self, a=None):
        a = self.pr.pen.get("alpha") if a is None else a
        return 0.0 if a is None else a

    def norm(self, est_fam, b0, b, a=None):
        """(L1 norm, max norm, floor) of the minimum-norm subgradient in solver coordinates."""
        kw = {}
        if self.lb is not None or self.ub is not None:
            kw = dict(lb=self.lb, ub=self.ub, bound_tol=1e-9)
        sub, floor = ref.min_subgrad(self.X, self.y, self.w, self.pr.off, est_fam, self.pr.fc.reflink,
                                     b0, b, self.alpha(a), self.l1, self.P1, self.P2, self.fi, self.sc,
                                     **kw)
        if not self.scale:
            k = int(self.fi)
            sub[k:] /= self.sd
            floor[k:] /= self.sd
        return float(np.abs(sub).sum()), float(np.abs(sub).max()), float(4 * floor.sum())

    def objective(self, est_fam, b0, b, a=None):
        on = self.w > 0
        off = None if self.pr.off is None else np.broadcast_to(self.pr.off, on.shape)[on]
        return float(ref.objective(self.X[on], self.y[on], self.w[on], off, est_fam,
                                   self.pr.fc.reflink, b0, b, self.alpha(a), self.l1, self.P1, self.P2, self.sc))

    def std_coef(self, b0, b):
        s = b * self.sd
        return np.r_[b0 + self.m @ b, s] if self.fi else s


def report_agrees(mon, est, sig):
    import contextlib
    import io
    d = est.diagnostics_
    full = est.get_formatted_diagnostics(full_report=True)
    mon.event("report")
    mon.check(list(full.index) == [r["n_iter"] for r in d], "formatted diagnostics lose iterations", sig=sig)
    for c in ("convergence", "objective_fct", "n_cycles", "n_coef_updated", "n_active_cols"):
        mon.check([float(v) for v in full[c]] == [float(r[c]) for r in d],
                  "formatted diagnostics differ from diagnostics_", column=c, sig=sig)
    want = [float(r["first_coef"]) for r in d]
    got = [float(v) for v in full["intercept"]]
    mon.check(got == want if est.fit_intercept else bool(np.all(np.isnan(got))),
              "the intercept of the formatted diagnostics is not the first coefficient", sig=sig)
    some = est.get_formatted_diagnostics(custom_columns=["objective_fct", "n_cycles"])
    mon.check(list(some.columns) == ["objective_fct", "n_cycles"], "custom diagnostics columns", sig=sig)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        est.report_diagnostics()
    mon.check("convergence" in out.getvalue() and len(out.getvalue().splitlines()) >= len(d) + 1,
              "report_diagnostics does not print every iteration", sig=sig)


def trace(mon, rng, case):
    from glum import GeneralizedLinearRegressor as G
    pr = gen.make_problem(rng, cats=0, alpha=10 ** rng.uniform(-4, .3))
    fc, p = pr.fc, pr.X.shape[1]
    if fc.limited:
        raise Skip("limited link")
    fi = bool(rng.random() < .75)
    scale = bool(fi and rng.random() < .25)
    L1 = pr.pen["l1_ratio"] > 0
    m, sd = meta.std_cols(pr.X, pr.wvec(), fi)
    lb = ub = None
    if rng.random() < .12 and not scale:
        lb = np.where(rng.random(p) < .6, -.15, -np.inf) / sd
        ub = np.where(rng.random(p) < .6, .2, np.inf) / sd
    bounded = lb is not None
    solver = "irls-cd" if L1 or bounded or rng.random() < .4 else "irls-ls"
    if fc.name == "normal/identity" and rng.random() < .7:
        raise Skip("one iteration only")
    P = Prob(pr, fi, scale, lb, ub)
    tol = float(10 ** rng.uniform(-9, -2))
    stol = float(10 ** rng.uniform(-6, -1)) if rng.random() < .15 else None
    N_MAX = 150
    kw = dict(fit_intercept=fi, solver=solver, gradient_tol=tol, step_size_tol=stol,
              scale_predictors=scale, family=fc.glum_family(rng), link=fc.glum_link(rng),
              lower_bounds=lb, upper_bounds=ub, selection="random" if rng.random() < .15 else "cyclic",
              random_state=int(rng.integers(1000)),
              hessian_approx=float(rng.choice([0, 0, 0, .01, .1])) if solver == "irls-cd" else 0.0,
              **pr.pen)
    kind = ["c", "f", "csc", "df"][rng.integers(4)]
    Xs = gen.store_dense(pr.X, kind)
    sp = None
    if rng.random() < .3:
        sp = rng.normal(size=p) * .4 / sd / np.sqrt(p)
        b0s = float(fc.reflink.link(np.average(P.y, weights=P.w))) if fi else 0.0
        if not np.isfinite(b0s):
            b0s = 0.0
        sp = np.r_[b0s - m @ sp, sp] if fi else sp
        if bounded:
            sp = None
    est = G(max_iter=N_MAX, start_params=sp, **kw)
    rec = meta.guarded_fit(est, Xs, pr.y, pr.w, pr.off, fc)
    warned = conv_warnings(rec)
    N, d = est.n_iter_, est.diagnostics_
    normal = fc.name == "normal/identity"
    cap = 1 if normal else N_MAX
    sig = (fc.name, kind, solver, fi, scale, "L1" if L1 else "L2", bounded, stol is not None, sp is not None,
           kw["hessian_approx"] > 0, kw["selection"])
    mon.state(*sig)
    mon.check(0 <= N <= cap, "more iterations than max_iter", n_iter=N, max_iter=cap, sig=sig)
    mon.check([r["n_iter"] for r in d] == list(range(N + 1)), "the diagnostics do not list every iteration",
              got=[r["n_iter"] for r in d], n_iter=N, sig=sig)
    if rng.random() < .25:
        report_agrees(mon, est, sig)
    failed_ls = any("Line search" in m for m in warned)
    obj = np.array([float(r["objective_fct"]) for r in d])
    conv = np.array([float(r["convergence"]) for r in d])
    step = np.array([float(r["L2(step)"]) for r in d])
    cyc = [int(r["n_cycles"]) for r in d]
    mon.event("iterates", N)
    if not failed_ls:
        rise = np.diff(obj)
        mon.check(bool(np.all(rise <= 64 * EPS * (1 + np.abs(obj[1:])))) if N else True,
                  "the objective increased", objective=obj, sig=sig)
    mon.check(all(b > a for a, b in zip(cyc, cyc[1:])), "an iteration without a cycle", cycles=cyc, sig=sig)
    mon.check(all(1 <= int(r["n_active_cols"]) <= p + fi or p + fi == 0 or L1 for r in d),
              "an impossible number of active columns", got=[r["n_active_cols"] for r in d], sig=sig)
    mon.check(all(0 <= int(r["n_active_rows"]) <= len(pr.y) for r in d), "an impossible number of rows",
              got=[r["n_active_rows"] for r in d], sig=sig)

    mon.check((step[0] == 0 or stol is not None) and cyc[0] == 0,
              "the diagnostics do not begin with the start",
              step=step[:2], cycles=cyc[:2], sig=sig)

    def reached(k):
        return conv[k] < tol or (stol is not None and k > 0 and step[k] < stol)
    mon.check(all(not reached(k) for k in range(N)), "iterated on after reaching the tolerance",
              convergence=conv, tol=tol, step=step, step_tol=stol, sig=sig)
    short = [m for m in warned if "failed to converge" in m]
    mon.check(bool(short) == (not reached(N)), "the convergence warning contradicts the diagnostics",
              warned=warned, convergence=conv[-3:], tol=tol, step=step[-3:], step_tol=stol, sig=sig)
    mon.check(reached(N) or N == cap, "stopped before max_iter without reaching a tolerance",
              convergence=conv[-3:], tol=tol, n_iter=N, sig=sig)
    if stol is not None and N and conv[N] >= tol and reached(N):
        mon.event("step tolerance")
    mon.sample({"family": fc.name, "solver": solver, "n_iter": N, "objective": [float(o) for o in obj[:6]]})
    # ---- the trace against the models truncated fits return
    fam = fc.ref_for(est)
    ks = list(range(1, N + 1)) if N <= 5 else sorted({1, 2, N - 1, N, *map(int, rng.integers(1, N, 2))})
    if normal:
        ks = [N] if N else []
    prev = const = None
    for k in ks:
        e = est
        if k != N:
            e = G(max_iter=k, start_params=sp, **kw)
            rk = meta.guarded_fit(e, Xs, pr.y, pr.w, pr.off, fc)
            wk = conv_warnings(rk)
            mon.event("truncated")
            mon.check(e.n_iter_ == k, "a truncated fit did not use its budget", n_iter=e.n_iter_, max_iter=k,
                      full=N, sig=sig)
            mon.check(any("failed to converge" in m for m in wk),
                      "a fit stopped before its tolerance without a warning", max_iter=k, full=N,
                      convergence=conv[k], tol=tol, sig=sig)
            mon.event("stopped early")
            keys = ("n_iter", "convergence", "objective_fct", "L1(coef)", "L2(coef)", "L2(step)",
                    "first_coef", "n_coef_updated", "n_active_cols", "n_active_rows", "n_cycles")
            mon.check(len(e.diagnostics_) == k + 1 and all(
                np.array_equal(np.float64(a[q]), np.float64(b[q]))
                for a, b in zip(e.diagnostics_, d) for q in keys),
                "a truncated fit has another history than the full one", k=k, sig=sig,
                got=[float(r["objective_fct"]) for r in e.diagnostics_], want=obj[:k + 1])
        b0, b = float(e.intercept_), np.asarray(e.coef_, float)
        if not (np.all(np.isfinite(b)) and np.isfinite(b0)):
            mon.violation("non-finite coefficients without an error", k=k, sig=sig, b=b, b0=b0)
            return
        eta = P.X @ b + b0 + (0 if pr.off is None else pr.off)
        if np.abs(eta[P.w > 0]).max() > (3.4 if "cloglog" in fc.name else 25):
            mon.event("far iterate")
            prev = None
            continue
        cs = P.std_coef(b0, b)
        size = np.abs(cs).sum() + np.abs(P.m * b).sum() + 1
        with np.errstate(all="ignore"):
            o = P.objective(fam, b0, b)
        # the solver leaves out the part of the deviance that depends on y alone
        if const is None:
            const = (obj[k] - o, abs(o) + abs(obj[k]))
        mon.check(abs(o + const[0] - obj[k]) <= 1e-8 * (const[1] + abs(o) + abs(obj[k])) + 1e-10 * size,
                  "the recorded objective does not change with the model", k=k, got=obj[k],
                  want=o + const[0], sig=sig)
        mon.check(abs(d[k]["L1(coef)"] - np.abs(cs).sum()) <= 1e-8 * size
                  and abs(d[k]["L2(coef)"] - np.linalg.norm(cs)) <= 1e-8 * size
                  and abs(d[k]["first_coef"] - cs[0]) <= 1e-8 * size,
                  "the recorded coefficient norms are not those of the model", k=k, sig=sig,
                  got=[d[k][q] for q in ("L1(coef)", "L2(coef)", "first_coef")],
                  want=[np.abs(cs).sum(), np.linalg.norm(cs), cs[0]])
        if prev is not None and prev[0] == k - 1:
            mon.check(abs(step[k] - np.linalg.norm(cs - prev[1])) <= 1e-7 * size,
                      "the recorded step is not the distance between the iterates", k=k, got=step[k],
                      want=np.linalg.norm(cs - prev[1]), sig=sig)
        prev = (k, cs)
        if not bounded:
            nrm, _, floor = P.norm(fam, b0, b)
            # zeroing out by the minimum-norm rule happens at exact zeros only; unscaling keeps them
            mon.check(abs(nrm - conv[k]) <= 1e-6 * (nrm + conv[k]) + 20 * floor + 1e-9,
                      "the recorded convergence is not the norm of the subgradient at the model", k=k,
                      got=conv[k], want=nrm, floor=floor, sig=sig)


def default_budget(mon, rng, case):
    from glum import GeneralizedLinearRegressor as G
    pr = gen.make_problem(rng, convex=True, cats=0, alpha=10 ** rng.uniform(-2.5, .5), sd=.4,
                          n=int(rng.choice([40, 80, 150, 400])), p=int(rng.integers(1, 6)))
    fc, X, y, w = pr.fc, pr.X, np.asarray(pr.y, float), pr.wvec()
    if fc.limited:
        raise Skip("limited link")
    n, p = X.shape
    fi = bool(rng.random() < .8)
    kw = dict(fit_intercept=fi, family=fc.glum_family(rng), link=fc.glum_link(rng), **pr.pen)
    if rng.random() < .3:
        kw["scale_predictors"] = bool(fi)
    if rng.random() < .3:
        kw["gradient_tol"] = float(10 ** rng.uniform(-7, -4))
    P = Prob(pr, fi, kw.get("scale_predictors", False))
    est = G(**kw)
    Xs = gen.store_dense(X, ["c", "f", "csc", "df"][rng.integers(4)])
    rec = meta.guarded_fit(est, Xs, y, pr.w, pr.off, fc)
    b0, b = float(est.intercept_), np.asarray(est.coef_, float)
    sig = (fc.name, fi, "L1" if P.l1 > 0 else "L2", kw.get("scale_predictors", False),
           kw.get("gradient_tol") is not None)
    mon.state("default", *sig)
    if not (np.all(np.isfinite(b)) and np.isfinite(b0)):
        mon.violation("non-finite coefficients without an error", sig=sig)
        return
    mon.check(est.n_iter_ <= 100, "more iterations than max_iter", n_iter=est.n_iter_, sig=sig)
    warned = conv_warnings(rec)
    eff = w.sum() ** 2 / (w ** 2).sum()
    lam = None
    with np.errstate(all="ignore"):
        geo = meta.problem_geometry(X, y, w, pr.off, fc.ref_for(est), fc.reflink, b0, b, P.alpha(), P.l1,
                                    P.P1, P.P2, fi, kw.get("scale_predictors", False))
        lam = geo[2]
    eta = X @ b + b0 + (0 if pr.off is None else pr.off)
    if not lam > 1e-4 or np.abs(eta).max() > 8 or eff < 5 * (p + 1):
        raise Skip("not well posed")
    if meta.cloglog_saturated(fc, X, b0, b, pr.off, w):
        raise Skip("cloglog saturated")
    # Fisher scoring contracts at the rate |1 - observed / expected information|
    fam, link = fc.ref_for(est), fc.reflink
    obs = meta.weight_hess(y, w, eta, fam, link)
    mu = link.inverse(eta)
    exp = w / w.sum() * link.d1(eta) ** 2 / fam.var(mu)
    Z = (X - P.m) / P.sd
    Z = np.hstack([np.ones((n, int(fi))), Z])
    D = P.alpha() * (1 - P.l1) * (P.P2 if P.scale else P.P2 / P.sd[:, None] / P.sd[None, :])
    pad = np.zeros((Z.shape[1],) * 2)
    pad[int(fi):, int(fi):] = D
    ratio = np.linalg.eigvals(np.linalg.solve((Z.T * exp) @ Z + pad, (Z.T * obs) @ Z + pad)).real
    if not (ratio.max() < 1.5 and ratio.min() > .25):
        raise Skip("observed and expected information differ")
    mon.event("well-posed")
    mon.check(not warned, "a well-posed convex problem did not converge by default", warned=warned,
              n_iter=est.n_iter_, sig=sig, lam=lam)
    _, _, floor = P.norm(fc.ref_for(est), b0, b)
    got, lim = meta.kkt(X, y, w, pr.off, fc.ref_for(est), fc.reflink, b0, b, P.alpha(), P.l1, P.P1, P.P2,
                        fi, bool(kw.get("scale_predictors", False)), est._solver if hasattr(est, "_solver")
                        else "irls-cd", kw.get("gradient_tol"))
    mon.check(warned or got <= lim, "converged without meeting the tolerance", got=got, lim=lim, sig=sig)


def path(mon, rng, case):
    from glum import GeneralizedLinearRegressor as G
    pr = gen.make_problem(rng, convex=True, cats=0, alpha=.1)
    fc, X, y = pr.fc, pr.X, np.asarray(pr.y, float)
    if fc.limited:
        raise Skip("limited link")
    fi = bool(rng.random() < .75)
    pen = {k: v for k, v in pr.pen.items() if k != "alpha"}
    P = Prob(pr, fi, False)
    al = np.sort(10 ** rng.uniform(-3, 0, int(rng.integers(2, 6))))[::-1]
    tol = float(10 ** rng.uniform(-8, -3))
    mi = int(rng.choice([1, 2, 3, 5, 100]))
    solver = "irls-cd" if P.l1 > 0 or rng.random() < .5 else "irls-ls"
    est = G(alpha_search=True, alpha=list(map(float, al)), max_iter=mi, gradient_tol=tol, solver=solver,
            fit_intercept=fi, family=fc.glum_family(rng), link=fc.glum_link(rng), **pen)
    rec = meta.guarded_fit(est, gen.store_dense(X, "c"), y, pr.w, pr.off, fc)
    warned = conv_warnings(rec)
    sig = ("path", fc.name, fi, solver, "L1" if P.l1 > 0 else "L2", mi)
    mon.state(*sig)
    fam = fc.ref_for(est)
    cap = 1 if fc.name == "normal/identity" else mi
    mon.check(est.n_iter_ <= cap, "more iterations than max_iter", n_iter=est.n_iter_, max_iter=cap, sig=sig)
    ratio_all, sure = [], True
    for k, a in enumerate(al):
        b0, b = float(np.ravel(est.intercept_path_)[k]) if fi else 0.0, np.asarray(est.coef_path_[k], float)
        if not np.all(np.isfinite(b)):
            mon.violation("non-finite coefficients without an error", k=k, sig=sig)
            return
        eta = X @ b + b0 + (0 if pr.off is None else pr.off)
        if np.abs(eta).max() > (3.4 if "cloglog" in fc.name else 20):
            raise Skip("far iterate")
        nrm, _, floor = P.norm(fam, b0, b, float(a))
        ratio_all.append(((nrm - 20 * floor) / tol, (nrm + 20 * floor) / tol))
    short = sum("failed to converge" in m for m in warned)
    must = sum(lo > 1.01 for lo, hi in ratio_all)
    may = sum(hi > .99 for lo, hi in ratio_all)
    mon.event("path:warned" if short else "path:quiet")
    mon.check(must <= short <= may, "the convergence warnings along the path do not match its models",
              warnings=short, unconverged=must, perhaps=may, ratios=ratio_all, sig=sig)


def other(mon, rng, case):
    from glum import GeneralizedLinearRegressor as G
    pr = gen.make_problem(rng, convex=True, cats=0, l1=0.0, alpha=10 ** rng.uniform(-3, 0))
    fc, X, y, w = pr.fc, pr.X, np.asarray(pr.y, float), pr.wvec()
    if fc.limited:
        raise Skip("limited link")
    fi = bool(rng.random() < .75)
    solver = "lbfgs" if rng.random() < .6 else "trust-constr"
    mi = int(rng.choice([1, 2, 3, 5, 10, 30, 300]))
    tol = float(10 ** rng.uniform(-6, -3))
    P = Prob(pr, fi, False)
    est = G(max_iter=mi, gradient_tol=tol, solver=solver, fit_intercept=fi, family=fc.glum_family(rng),
            link=fc.glum_link(rng), **pr.pen)
    rec = meta.guarded_fit(est, gen.store_dense(X, ["c", "csc"][rng.integers(2)]), y, pr.w, pr.off, fc)
    warned = conv_warnings(rec)
    sig = (solver, fc.name, fi, mi)
    mon.state(*sig)
    mon.event("solver:" + solver)
    mon.check(0 <= est.n_iter_ <= mi, "more iterations than max_iter", n_iter=est.n_iter_, max_iter=mi, sig=sig)
    b0, b = float(est.intercept_), np.asarray(est.coef_, float)
    if not np.all(np.isfinite(b)):
        mon.check(bool(warned), "non-finite coefficients without a warning", sig=sig)
        return
    eta = X @ b + b0 + (0 if pr.off is None else pr.off)
    if np.abs(eta).max() > (3.4 if "cloglog" in fc.name else 20):
        raise Skip("far iterate")
    fam = fc.ref_for(est)
    _, mx, floor = P.norm(fam, b0, b)
    obj = abs(P.objective(fam, b0, b))
    if solver == "lbfgs":
        lim = max(1.01 * tol, 2e-5 * max(1.0, obj) * (1 + np.abs(X).max())) + 20 * floor
    else:
        lim = 1.01 * tol + 20 * floor
    mon.event("other:warned" if warned else "other:quiet")
    if not warned:
        mon.check(mx <= lim, "stopped before its tolerance without a warning", norm=mx, lim=lim,
                  n_iter=est.n_iter_, max_iter=mi, sig=sig)
    elif est.n_iter_ < mi and not any("lbfgs failed for the reason" in m or "stopped before" in m
                                      for m in warned):
        mon.check(False, "reported running out of iterations with iterations to spare", sig=sig,
                  n_iter=est.n_iter_, max_iter=mi, warned=warned)
    else:
        mon.check(mx > .99 * tol - 20 * floor or est.n_iter_ >= mi, "warned although the tolerance was reached",
                  norm=mx, tol=tol, warned=warned, sig=sig)


def mono(mon, rng, case):
    from glum import GeneralizedLinearRegressor as G
    import pandas as pd
    pr = gen.make_problem(rng, convex=True, cats=0, l1=0.0, alpha=10 ** rng.uniform(-3, 0), p=int(rng.integers(2, 5)))
    fc, X, y, w = pr.fc, pr.X, np.asarray(pr.y, float), pr.wvec()
    if fc.limited:
        raise Skip("limited link")
    p = X.shape[1]
    for k in ("P1",):
        pr.pen.pop(k, None)
    names = [f"x{j}" for j in range(p)]
    # monotone along an ordered factor made from the data
    k = int(rng.integers(3, 6))
    code = rng.integers(0, k, len(y))
    code[:k] = np.arange(k)
    df = pd.DataFrame(X, columns=names)
    df["f"] = pd.Categorical.from_codes(code, [f"l{j}" for j in range(k)], ordered=True)
    pen = {q: v for q, v in pr.pen.items() if q != "P2"}
    mi = int(rng.choice([1, 2, 4, 8, 100]))
    est = G(max_iter=mi, gradient_tol=1e-6, monotonic_constraints={"f": "increasing"},
            formula=" + ".join(["f"] + names),
            family=fc.glum_family(rng), link=fc.glum_link(rng), **pen)
    rec = meta.guarded_fit(est, df, y, pr.w, pr.off, fc)
    warned = conv_warnings(rec)
    sig = ("mono", fc.name, mi)
    mon.state(*sig)
    mon.check(0 <= est.n_iter_ <= mi, "more iterations than max_iter", n_iter=est.n_iter_, max_iter=mi, sig=sig)
    d = est.diagnostics_
    if d is not None:
        mon.check([r["n_iter"] for r in d] == list(range(est.n_iter_ + 1)),
                  "the diagnostics do not list every iteration", got=[r["n_iter"] for r in d], sig=sig)
        fin = float(d[-1]["convergence"])
        short = any("failed to converge" in m for m in warned)
        viol = any("constraint violation" in m for m in warned)
        if est.n_iter_ >= mi and fin >= 1e-6:
            mon.check(short, "a fit stopped before its tolerance without a warning", convergence=fin,
                      max_iter=mi, sig=sig)
        if est.n_iter_ < mi:
            mon.check(not short and fin < 1e-6, "stopped early, or warned after converging", convergence=fin,
                      warned=warned, n_iter=est.n_iter_, max_iter=mi, sig=sig)
        at = {nm: v for nm, v in zip(est.feature_names_, est.coef_)}
        eff = np.array([at[f"f[l{j}]"] for j in range(k)])
        _, sdf = ref.col_stats(np.eye(k)[code], w)
        if not viol:
            mon.check(bool(np.all(np.diff(eff) * np.minimum(sdf[1:], sdf[:-1]) >= -1e-5)),
                      "monotonicity violated without a warning", effects=eff, sig=sig)
        else:
            mon.check(bool(np.diff(eff).min() < -9e-7), "warned of a violated constraint that holds",
                      effects=eff, warned=warned, sig=sig)
        mon.check(float(d[0]["L2(step)"]) == 0 and int(d[0]["n_cycles"]) == 0,
                  "the diagnostics do not begin with the start", first=d[0], sig=sig)
        mon.event("mono:warned" if short or viol else "mono:quiet")


def run_case(case, mon):
    rng = harness.rng_for("C24", case["seed"], case["i"])
    law = LAWS[case["i"] % len(LAWS)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"trace": trace, "default": default_budget, "path": path, "other": other, "mono": mono}[law](
            mon, rng, case)
    mon.event("law:" + law)


if __name__ == "__main__":
    import checks.c24 as mod
    harness.main(mod)
