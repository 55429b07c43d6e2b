"""C13: Wald tests and the coefficient table report the textbook statistics."""
import re
import warnings

import numpy as np
from scipy import stats

from vlib import gen, harness, meta
from vlib.harness import Skip

PROPERTY = "C13"
RULE = ("wald_test (R / features / terms / formula, with and without r) and coef_table calls on "
        "random fitted models, with data or with the stored covariance; non-trivial = statistic, "
        "p-value and df judged against an independent evaluation from the coefficients and the "
        "covariance matrix for the same arguments; distinct = spelling, r form, model type, "
        "family, storage, covariance arguments")
MINIMUM = {"quick": {"oracle": 8000, "states": 1200, "by:R": 400, "by:features": 400,
                     "by:terms": 400, "by:formula": 400, "table": 300, "refused": 600},
           "thorough": {"oracle": 80000, "states": 5000}}
ASSUMPTIONS = ["the covariance matrix itself is judged by C12; here it is read through "
               "covariance_matrix with the same arguments"]


def plan(tier, seed):
    n = 3000 if tier == "quick" else 20000
    return [{"seed": seed, "i": i} for i in range(n)]


def term_of(name):
    return ":".join(re.sub(r"\[.*\]$", "", part) for part in name.split(":"))


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    rng = harness.rng_for("C13", case["seed"], case["i"])
    kind = ["plain", "plain", "formula", "path", "cv"][case["i"] % 5]
    pr = gen.make_problem(rng, alpha=0.0 if rng.random() < .8 else 1e-3, convex=True,
                          n=int(rng.choice([40, 60, 120])), spread=0.5,
                          cats=int(rng.random() < .5), weights=True)
    fc = pr.fc
    if fc.limited or fc.linkname.startswith("tweedie"):
        raise Skip("limited link")
    if pr.wkind in ("tiny", "zeros"):
        pr.w = None
    drop = True
    X = pr.data.dense(drop)
    n, p = X.shape
    if p == 0:
        raise Skip("no columns")
    pr.pen = gen.make_penalty(rng, p, l1=0.0, alpha=pr.pen["alpha"])
    fi = bool(rng.random() < .75)
    c_rob, c_exp = bool(rng.random() < .5), bool(rng.random() < .5)
    kw = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi,
              drop_first=drop, max_iter=200, gradient_tol=1e-6, robust=c_rob,
              expected_information=c_exp)
    pen = dict(pr.pen)
    data, y, w, off = pr.data, pr.y, pr.w, pr.off
    lib = ["df", "polars"][rng.integers(2)]
    store = lib if (pr.data.has_cat or rng.random() < .5) else \
        ["c", "f", "csc", "tm_split", "list"][rng.integers(5)]
    ya = gen.as_y_arg(rng, y)
    if kind == "formula":
        store = "df"
        kw.pop("drop_first")
        pen = {"alpha": pen["alpha"]}
        parts = [c[1] for c in data.cols]
        if len(parts) > 1 and rng.random() < .5:
            parts.append(f"{parts[0]}:{parts[1]}")
        rhs = " + ".join(parts) + ("" if fi else " - 1")
        two = rng.random() < .5
        est = GeneralizedLinearRegressor(formula=("yy ~ " if two else "") + rhs, **kw, **pen)
        Xs = data.store("df")
        if two:
            Xs["yy"], ya = y, None
    elif kind == "plain":
        Xs = data.store(store, drop)
        est = GeneralizedLinearRegressor(**kw, **pen)
    else:
        Xs = data.store(store, drop)
        a = pen.pop("alpha")
        al = [0.1, a + 1e-5]
        pen["l1_ratio"] = float(pen["l1_ratio"])
        if kind == "path":
            est = GeneralizedLinearRegressor(alpha=al, alpha_search=True, **kw, **pen)
        else:
            est = GeneralizedLinearRegressorCV(alphas=al, cv=2, **kw, **pen)
    if rng.random() < .2:
        est.set_params(categorical_format="{name}__{category}")
        cat_fmt = "__"
    else:
        cat_fmt = None
    at_fit = rng.random() < .4
    fkw = {}
    cl = rng.integers(0, 8, n)
    if at_fit:
        fkw["store_covariance_matrix"] = True
        if rng.random() < .3:
            fkw["clusters"] = cl
    try:
        rec = meta.guarded_fit(est, Xs, ya, w, off, fc, **fkw)
    except np.linalg.LinAlgError:
        raise Skip("singular design said so")
    except ValueError as e:
        if "infs or NaNs" in str(e) or "No variation" in str(e) or "in y range" in str(e):
            raise Skip("fit said so")
        raise
    if not gen.converged(rec):
        raise Skip("fit warned")
    b, b0 = np.asarray(est.coef_, float), float(est.intercept_)
    names = list(est.feature_names_)
    terms = list(est.term_names_)
    if not np.all(np.isfinite(b)):
        raise Skip("non-finite coefficients")
    p = len(b)
    if not mon.check(len(names) == p and len(terms) == p,
                     "feature_names_/term_names_ do not have one entry per coefficient",
                     names=names, terms=terms, p=p):
        return
    if kind == "formula":
        if cat_fmt is None:
            mon.check(terms == [term_of(x) for x in names], "term names do not group the features",
                      names=names, terms=terms)
    elif store in ("df", "polars"):
        want_t, want_f = [], []
        for c in data.cols:
            if c[0] == "num":
                want_t.append(c[1])
                want_f.append(c[1])
            else:
                lv = list(c[3])[1:]
                want_t += [c[1]] * len(lv)
                want_f += [f"{c[1]}__{v}" if cat_fmt else f"{c[1]}[{v}]" for v in lv]
        mon.check(terms == want_t and names == want_f, "feature or term names differ from the "
                  "columns they describe", got=[names, terms], want=[want_f, want_t])
    full = (["intercept"] if fi else []) + names
    tfull = (["intercept"] if fi else []) + terms
    beta = np.r_[b0, b] if fi else b
    k = len(beta)
    if not fi:
        mon.check(b0 == 0.0, "intercept_ is not zero without an intercept", got=b0)

    # a table before any covariance is known: just the coefficients
    import pandas as pd
    if not at_fit:
        t = est.coef_table()
        mon.check(isinstance(t, pd.Series) and list(t.index) == full
                  and np.array_equal(t.to_numpy(), beta), "coef_table without data is not the "
                  "named coefficients", got=list(t.index), want=full)

    def args():
        """Covariance arguments for one inference call."""
        if at_fit and rng.random() < .5:
            return {}, "stored"
        kwc = dict(X=Xs, sample_weight=w, offset=off)
        if ya is not None:
            kwc["y"] = ya
        tag = "data"
        if rng.random() < .3:
            kwc["clusters"] = cl
            tag += "+clusters"
        if rng.random() < .4:
            kwc["robust"] = bool(rng.random() < .5)
            tag += "+robust"
        if rng.random() < .3:
            kwc["expected_information"] = bool(rng.random() < .5)
            tag += "+exp"
        if rng.random() < .2:
            kwc["dispersion"] = float(rng.uniform(.5, 3))
            tag += "+phi"
        if rng.random() < .2:
            # a mean vector of the caller's own
            kwc["mu"] = np.asarray(est.predict(Xs, offset=off)) * (
                0.9 if fc.kind != "binomial" else 1.0)
            tag += "+mu"
        return kwc, tag

    def quiet(f, *a, **k_):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return f(*a, **k_)

    def cov(kwc):
        try:
            V = np.asarray(quiet(est.covariance_matrix, **kwc), float)
        except np.linalg.LinAlgError:
            raise Skip("singular design said so")
        d = np.diag(V)
        if not np.all(np.isfinite(V)) or d.min() <= 0:
            raise Skip("degenerate covariance")
        C = V / np.sqrt(np.outer(d, d))
        if np.linalg.cond(C) > 1e9:
            raise Skip("nearly singular covariance")
        return V

    det = dict(model=kind, family=fc.name, store=store)

    def judge(what, res, R, r, V, tag, rform):
        d = R @ beta - r
        M = R @ V @ R.T
        s = np.sqrt(np.diag(M))
        if s.min() <= 0 or np.linalg.cond(M / np.outer(s, s)) > 1e8:
            raise Skip("restrictions (nearly) redundant")
        want = float(d @ np.linalg.solve(M, d))
        df = len(r)
        stat, pv, dd = res.test_statistic, res.p_value, res.df
        st = float(np.asarray(stat).ravel()[0])
        mon.close(st, want, f"Wald statistic by {what} is not (Rw-r)'(RVR')^-1(Rw-r)", rtol=1e-5,
                  atol=1e-9, args=tag, r=rform, **det)
        mon.close(float(np.asarray(pv).ravel()[0]), stats.chi2.sf(want, df),
                  f"Wald p-value by {what} is not the chi-squared tail", rtol=1e-4, atol=1e-9,
                  args=tag, df=df, **det)
        mon.check(int(dd) == df, f"Wald degrees of freedom by {what} are not the number of "
                  "restrictions", got=dd, want=df, **det)
        mon.event("by:" + what)
        mon.state(what, rform, kind, fc.name, store if kind != "formula" else "df", tag)

    judged = 0
    for rep in range(int(rng.integers(3, 7))):
        kwc, tag = args()
        try:
            V = cov(kwc)
        except Skip as e:
            mon.event("unjudged:" + str(e))
            continue
        judged += 1
        try:
            r_ = rng.random()
            if r_ < .25:
                q = int(rng.integers(1, min(k, 4) + 1))
                R = rng.integers(-2, 3, (q, k)).astype(float)
                if rng.random() < .5:
                    R[:, :] = 0
                    R[np.arange(q), rng.permutation(k)[:q]] = 1
                rv = None if rng.random() < .4 else np.round(rng.normal(size=q), 2)
                if np.linalg.matrix_rank(R) < q:
                    raise Skip("redundant restrictions")
                rform = "none" if rv is None else "given"
                ra = rv
                if rv is not None and rng.random() < .4:
                    ra, rform = list(rv), "list"
                if rv is not None and rng.random() < .2:
                    rv = np.round(rv)
                    ra, rform = [int(v) for v in rv], "ints"
                res = quiet(est.wald_test, R=R if rng.random() < .7 else R.astype(int), r=ra, **kwc)
                judge("R", res, R, np.zeros(q) if rv is None else rv, V, tag, rform)
            elif r_ < .5:
                q = int(rng.integers(1, min(k, 4) + 1))
                idx = rng.permutation(k)[:q]
                feats = [full[j] for j in idx]
                if len(set(full)) < k:
                    raise Skip("duplicate names")
                rv = None if rng.random() < .4 else np.round(rng.normal(size=q), 2)
                fa, ra, rform = feats, rv, "none" if rv is None else "given"
                if rv is not None and rng.random() < .5:
                    ra, rform = list(rv), "list"
                if rform == "list" and rng.random() < .4:
                    rv = np.where(rng.random(q) < .5, np.round(rv), rv)
                    ra, rform = [int(v) if v == int(v) else float(v) for v in rv], "mixed"
                if q == 1 and rng.random() < .5:
                    fa, rform = feats[0], rform + "/str"
                R = np.eye(k)[idx]
                res = quiet(est.wald_test, features=fa, r=ra, **kwc)
                judge("features", res, R, np.zeros(q) if rv is None else rv, V, tag, rform)
            elif r_ < .75:
                uniq = list(dict.fromkeys(tfull))
                q = int(rng.integers(1, min(len(uniq), 3) + 1))
                ts = [uniq[j] for j in rng.permutation(len(uniq))[:q]]
                rv = None if rng.random() < .5 else np.round(rng.normal(size=q), 2)
                rl = None if rv is None else list(rv)
                if rv is not None and rng.random() < .4:   # whole numbers given as integers
                    rv = np.where(rng.random(q) < .5, np.round(rv), rv)
                    rl = [int(v) if v == int(v) else float(v) for v in rv]
                    mon.event("integer among the values")
                rows, rr = [], []
                for j, t in enumerate(ts):
                    for c in range(k):
                        if tfull[c] == t:
                            rows.append(np.eye(k)[c])
                            rr.append(0.0 if rv is None else rv[j])
                ta, rform = ts, "none" if rv is None else "given"
                if q == 1 and rng.random() < .5:
                    ta, rform = ts[0], rform + "/str"
                res = quiet(est.wald_test, terms=ta, r=rl, **kwc)
                judge("terms", res, np.array(rows), np.array(rr), V, tag, rform)
            else:
                q = int(rng.integers(1, min(k, 3) + 1))
                R, rv, txt = np.zeros((q, k)), np.zeros(q), []
                for i in range(q):
                    m = int(rng.integers(1, min(k, 3) + 1))
                    s = ""
                    for j in rng.permutation(k)[:m]:
                        c = int(rng.choice([-2, -1, 1, 2, 3]))
                        if not s and i:  # formulaic reads ", -" as one operator
                            c = abs(c)
                        R[i, j] = c
                        nm = f"`{full[j]}`" if not full[j].isidentifier() or rng.random() < .3 \
                            else full[j]
                        s += (" - " if c < 0 else " + " if s else "") + \
                            (nm if abs(c) == 1 else f"{abs(c)} * {nm}")
                    if rng.random() < .7:
                        rv[i] = float(np.round(rng.uniform(0, 2), 2))
                        s += f" = {rv[i]}"
                    txt.append(s.strip())
                if np.linalg.matrix_rank(R) < q:
                    raise Skip("redundant restrictions")
                res = quiet(est.wald_test, formula=", ".join(txt), **kwc)
                judge("formula", res, R, rv, V, tag, f"{q}")
        except Skip as e:
            mon.event("unjudged:" + str(e))

    # ---- coefficient table
    for rep in range(2):
        kwc, tag = args()
        try:
            V = cov(kwc)
        except Skip as e:
            mon.event("unjudged:" + str(e))
            continue
        lev = None if rng.random() < .3 else float(rng.choice([.5, .8, .9, .99, .999]))
        t = quiet(est.coef_table, **kwc, **({} if lev is None else {"confidence_level": lev}))
        lev = .95 if lev is None else lev
        se = np.sqrt(np.diag(V))
        z = stats.norm.isf((1 - lev) / 2)
        mon.check(list(t.index) == full, "coef_table rows are not the intercept and features in "
                  "order", got=list(t.index), want=full, **det)
        for col, want, tol in (("coef", beta, 0), ("se", se, 1e-9), ("t_value", beta / se, 1e-9),
                               ("ci_lower", beta - z * se, 1e-9), ("ci_upper", beta + z * se, 1e-9)):
            mon.close(t[col].to_numpy(), want, f"coef_table column {col} is wrong", rtol=tol or 1e-15,
                      atol=1e-9 * float(np.max(se)) if tol else 0.0, args=tag, level=lev, **det)
        mon.close(t["p_value"].to_numpy(), 2 * stats.norm.sf(np.abs(beta / se)),
                  "coef_table p-values are not two-sided normal", rtol=1e-6, atol=1e-12, **det)
        mon.event("table")
        mon.state("table", kind, fc.name, store, tag, lev)

    # ---- refused hypotheses
    kwc = {} if at_fit else dict(X=Xs, sample_weight=w, offset=off)
    if ya is not None and not at_fit:
        kwc["y"] = ya
    bad = [dict(), dict(features=full[0], terms=tfull[0]), dict(R=np.eye(k), formula="x0 = 0"),
           dict(features="no such"), dict(terms="no such"), dict(features=[full[0], "nope"]),
           dict(features=[full[0]], r=[1.0, 2.0]), dict(terms=[tfull[0]], r=[1.0, 2.0]),
           dict(R=np.eye(k), r=np.zeros(k + 1)), dict(R=np.eye(k + 1)[:1]),
           dict(formula=f"`{full[0]}` = 1", r=[1.0])]
    if not fi:
        bad += [dict(features="intercept"), dict(terms="intercept")]
    for j in rng.permutation(len(bad))[:3]:
        mon.event("refused")
        try:
            quiet(est.wald_test, **bad[j], **kwc)
        except (ValueError, np.linalg.LinAlgError):
            mon.check(True, "")
        else:
            mon.check(False, "an invalid hypothesis was not refused", hypothesis=sorted(bad[j]), **det)
    if not judged:
        raise Skip("nothing judged")
    mon.sample({"model": kind, "names": names[:6], "family": fc.name})


if __name__ == "__main__":
    import checks.c13 as mod
    harness.main(mod)
