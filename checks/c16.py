"""C16: a fitted estimator is a function of its parameters and its last training data."""
import copy
import pickle
import warnings

import numpy as np
import scipy.sparse as sp

from vlib import harness
from vlib.harness import Skip

PROPERTY = "C16"
RULE = ("random histories (set_params, fits on unrelated data sets and containers, failing fits, "
        "predictions, inference, information criteria, pickling) of one estimator, with a fresh "
        "estimator built from get_params() and fitted on the same data after every fit; "
        "non-trivial = public state and every method's result (or refusal) compared bit for bit; "
        "distinct = estimator, previous and current data form, parameters changed, event before")
MINIMUM = {"quick": {"oracle": 15000, "states": 700, "twin": 900, "repeat": 150, "pickle": 250,
                     "clone": 400, "failed-fit": 80, "shared-instance": 60, "alias": 50,
                     "roundtrip": 30},
           "thorough": {"oracle": 150000, "states": 6000}}


def plan(tier, seed):
    n = 700 if tier == "quick" else 9000
    return [{"seed": seed, "i": i} for i in range(n)]


# ------------------------------------------------------------------ data sets
class DS:
    pass


def dataset(rng):
    import pandas as pd
    import polars as pl
    d = DS()
    n = d.n = int(rng.choice([18, 30, 50]))
    d.form = str(rng.choice(["c", "f", "f32", "csc", "df", "df_cat", "df_cat", "polars",
                             "df_missing", "one_sided", "two_sided", "df_obj"]))
    p = int(rng.integers(1, 4))
    names = [f"x{j}" for j in rng.permutation(6)[:p]]
    X = rng.normal(size=(n, p)) * rng.choice([.3, 1, 4]) + rng.normal()
    d.y = 1.0 + rng.poisson(np.exp(np.clip(.4 * (X[:, 0] - X[:, 0].mean()) / X[:, 0].std(), -2, 2)))
    d.y[:2] = [1, 3]
    d.w = [None, rng.uniform(.5, 2, n), rng.integers(1, 4, n).astype(float)][rng.integers(3)]
    d.off = None if rng.random() < .6 else rng.normal(size=n) * .2
    d.formula = None
    d.miss = "fail"
    lv = list("abcdef")[:int(rng.integers(2, 6))]
    if rng.random() < .5:
        lv = lv[::-1]
    cname = ["c", "g", "x9"][rng.integers(3)]
    cat = [lv[k] for k in rng.integers(0, len(lv), n)]
    cat[:len(lv)] = lv
    if d.form in ("c", "f", "f32", "csc"):
        d.X = {"c": lambda: X.copy(), "f": lambda: np.asfortranarray(X),
               "f32": lambda: X.astype(np.float32), "csc": lambda: sp.csc_matrix(X)}[d.form]()
        d.new = X[:7] * 1.1
        if d.form == "csc":
            d.new = sp.csc_matrix(d.new)
        return d
    cols = {k: X[:, j] for j, k in enumerate(names)}
    if d.form in ("df_cat", "df_missing", "one_sided", "two_sided"):
        dt = pd.CategoricalDtype(lv + (["zz"] if d.form == "df_cat" and rng.random() < .3 else []))
        if d.form == "df_missing":
            for k in rng.permutation(n)[:4]:
                if cat.count(cat[k]) > 1:
                    cat[k] = None
            d.miss = ["convert", "zero"][rng.integers(2)]
        cols[cname] = pd.Categorical(cat, dtype=dt)
    if d.form == "polars":
        cols[cname] = pl.Series(cat, dtype=pl.Enum(lv))
        d.X = pl.DataFrame(cols)
        d.new = d.X[:7]
        return d
    d.X = pd.DataFrame(cols)
    if d.form in ("one_sided", "two_sided"):
        rhs = [f"{names[0]}", f"{names[0]} + {cname}", f"C({cname}) + {names[-1]}",
               f"{names[0]} * {cname}", f"np.exp({names[0]} / 10) + {cname}"][rng.integers(5)]
        d.formula = rhs
        if d.form == "two_sided":
            d.X["target"] = d.y
            d.formula = "target ~ " + rhs
    d.new = d.X.iloc[:7]
    return d


FAMS = ["normal", "poisson", "gamma", "tweedie(1.5)", "negative.binomial(0.5)", "inverse.gaussian",
        "binomial"]


def fam_y(params, d):
    return (d.y > 1.5).astype(float) if params["family"] == "binomial" else d.y


def family_name(f):
    if isinstance(f, str):
        return f
    return type(f).__name__


def draw_params(rng, cv, first, insts):
    """A change of parameters valid for every data set."""
    ch = {}

    def put(k, v, prob):
        if first or rng.random() < prob:
            ch[k] = v
    fam = FAMS[rng.integers(len(FAMS))]
    put("family", fam, .5)
    put("fit_intercept", bool(rng.random() < .8), .3)
    put("gradient_tol", None if rng.random() < .35 else float(10 ** rng.uniform(-8, -3)), .3)
    put("max_iter", int(rng.choice([2, 20, 100])), .3)
    put("drop_first", bool(rng.random() < .5), .3)
    put("robust", bool(rng.random() < .5), .3)
    put("expected_information", bool(rng.random() < .5), .3)
    put("scale_predictors", bool(rng.random() < .3), .3)
    put("solver", str(rng.choice(["auto", "auto", "irls-cd", "irls-ls", "lbfgs", "trust-constr"])),
        .4)
    put("copy_X", [None, True][rng.integers(2)], .2)
    put("cat_missing_name", ["(MISSING)", "none"][rng.integers(2)], .2)
    put("categorical_format", ["{name}[{category}]", "{name}__{category}"][rng.integers(2)], .2)
    put("interaction_separator", [":", " x "][rng.integers(2)], .2)
    put("lower_bounds", [None, None, -0.4][rng.integers(3)], .3)
    put("upper_bounds", [None, None, 0.3][rng.integers(3)], .3)
    put("random_state", [None, 3][rng.integers(2)], .2)
    put("selection", "cyclic", .1)
    if rng.random() < .15:
        ch["selection"], ch["random_state"] = "random", int(rng.integers(9))
    put("hessian_approx", [0.0, 0.0, 0.01][rng.integers(3)], .1)
    l1 = float(rng.choice([0, .5, 1]))
    if cv:
        put("l1_ratio", [l1, l1, [0.2, .8]][rng.integers(3)], .5)
        put("alphas", [[.1, .01], [.3, .1, .03], None][rng.integers(3)], .5)
        put("n_alphas", int(rng.integers(2, 4)), .3)
        put("min_alpha_ratio", .1, .3)
        put("cv", [2, 3][rng.integers(2)], .3)
    else:
        put("l1_ratio", l1, .5)
        r = rng.random()
        if first or rng.random() < .7:
            if r < .4:
                ch.update(alpha_search=False, alpha=float(10 ** rng.uniform(-3, 0)))
            elif r < .55:
                ch.update(alpha_search=False, alpha=0.0)
            elif r < .75:
                ch.update(alpha_search=True, alpha=[.5, .1, .02])
            elif r < .85:
                ch.update(alpha_search=True, alpha=None, n_alphas=3, min_alpha_ratio=.05)
            else:
                ch.update(alpha_search=False, alpha=None)
    return ch


# ------------------------------------------------------------------ comparison
def same(a, b, path=""):
    """First difference between two values, or None."""
    import pandas as pd
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return f"{path}: {type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return same(a.tolist(), b.tolist(), path)
        ok = a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
        return None if ok else f"{path}: arrays {a.ravel()[:4]} vs {b.ravel()[:4]}"
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return None if a.equals(b) else f"{path}: frames differ"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} vs {list(b)}"
        for k in a:
            r = same(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for k, (u, v) in enumerate(zip(a, b)):
            r = same(u, v, f"{path}[{k}]")
            if r:
                return r
        return None
    if isinstance(a, float) or isinstance(b, float):
        return None if (a == b or (np.isnan(a) and np.isnan(b))) else f"{path}: {a} vs {b}"
    if a is None or isinstance(a, (str, int, bool)):
        return None if a == b else f"{path}: {a!r} vs {b!r}"
    if hasattr(a, "column_names"):
        return same(list(a.column_names), list(b.column_names), path + ".column_names")
    if hasattr(a, "__dict__") and "glum" in type(a).__module__:
        return same(vars(a), vars(b), path)
    return None


def public_state(est):
    """Public fitted attributes, without wall-clock times."""
    params = est.get_params(deep=False)
    out = {}
    for k, v in sorted(vars(est).items()):
        if k.startswith("_") or k in params:
            continue
        if k == "diagnostics_" and v is not None:
            v = [{kk: vv for kk, vv in row.items() if "runtime" not in kk} if isinstance(row, dict)
                 else row for row in v]
        out[k] = v
    return out


def outcome(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                return ("ok", f(*a, **k))
            except Exception as e:
                return ("raised", type(e).__name__)


def battery(est, d, params, light=False):
    """Everything a user can ask of the fitted model."""
    two = d.form == "two_sided"
    y = fam_y(params, d)
    if params["family"] == "binomial" and two:
        y = None
    yy = None if two else y
    q = {"predict": outcome(est.predict, d.new),
         "linear_predictor": outcome(est.linear_predictor, d.X, offset=d.off),
         "names": outcome(lambda: list(est.feature_names_)),
         "terms": outcome(lambda: list(est.term_names_)),
         "score": outcome(est.score, d.X, d.y if two else y, sample_weight=d.w)}
    if light:
        return q
    q["levels"] = outcome(lambda: est.categorical_levels_)
    q["feature_dtypes"] = outcome(lambda: {k: str(v) for k, v in est.feature_dtypes_.items()})
    q["family"] = outcome(lambda: vars(est.family_instance))
    q["family_type"] = outcome(lambda: type(est.family_instance).__name__)
    q["link"] = outcome(lambda: (type(est.link_instance).__name__, vars(est.link_instance)))
    q["std_stored"] = outcome(est.std_errors)
    q["cov"] = outcome(est.covariance_matrix, d.X, yy, sample_weight=d.w, offset=d.off)
    q["table"] = outcome(est.coef_table, d.X, yy, sample_weight=d.w, offset=d.off)
    q["table_stored"] = outcome(est.coef_table)
    q["wald"] = outcome(est.wald_test, d.X, yy, sample_weight=d.w, offset=d.off,
                        features=[est.feature_names_[0]])
    q["by_alpha"] = outcome(est.predict, d.new, alpha=.1)
    q["by_index"] = outcome(est.predict, d.new, alpha_index=[0])
    q["by_index1"] = outcome(est.predict, d.new, alpha_index=1)
    if hasattr(est, "aic") and not two:
        for m in ("aic", "bic"):
            q[m] = outcome(getattr(est, m), d.X, y, sample_weight=d.w)
    q["diag"] = outcome(lambda: est.get_formatted_diagnostics(
        full_report=False, custom_columns=["objective_fct", "convergence", "first_coef"]))
    return q


def compare(mon, msg, A, B, skip=(), **det):
    for k in A:
        if k in skip:
            continue
        r = same(A[k], B.get(k, ("missing",)), k)
        mon.check(r is None, msg, where=r, **det)
        if A[k][0] == "ok" if isinstance(A[k], tuple) and A[k] else False:
            mon.event("method:" + k)


def run_case(case, mon):
    import sklearn
    from glum import (GammaDistribution, GeneralizedLinearRegressor, GeneralizedLinearRegressorCV,
                      NegativeBinomialDistribution, NormalDistribution, PoissonDistribution,
                      TweedieDistribution)
    rng = harness.rng_for("C16", case["seed"], case["i"])
    cv = case["i"] % 4 == 3
    cls = GeneralizedLinearRegressorCV if cv else GeneralizedLinearRegressor
    insts = [NormalDistribution(), PoissonDistribution(), GammaDistribution(),
             TweedieDistribution(1.3), NegativeBinomialDistribution(.7)]
    if case["i"] % 10 == 9:
        return roundtrip(rng, mon, cls, sklearn)
    pool = [dataset(rng) for _ in range(3)]
    kw = draw_params(rng, cv, True, insts)
    est = cls(**kw)
    other = cls(**draw_params(rng, cv, True, insts))
    prev, before, ch = "none", "", kw
    for step in range(int(rng.integers(2, 6))):
        d = pool[rng.integers(len(pool))]
        if step:
            ch = draw_params(rng, cv, False, insts)
        ch = dict(ch, formula=d.formula, cat_missing_method=d.miss)
        if rng.random() < .25:
            ch["family"] = insts[rng.integers(len(insts))]
            mon.event("shared-instance")
        par = est.get_params(deep=False)
        par.update(ch)
        if par["family"] == "binomial" and d.form == "two_sided":
            ch["family"] = par["family"] = "poisson"
        if not par["fit_intercept"]:
            ch["scale_predictors"] = par["scale_predictors"] = False
        if par["family"] in ("inverse.gaussian",) and not par["fit_intercept"]:
            ch["fit_intercept"] = par["fit_intercept"] = True
        # general constraints make "auto" choose another solver and another tolerance
        if d.form in ("c", "f", "f32", "csc") and rng.random() < .3:
            ch.update(A_ineq=np.ones((1, d.X.shape[1])), b_ineq=np.array([.5]), l1_ratio=0.0,
                      solver="auto")
            mon.event("constrained")
        elif par.get("A_ineq") is not None:
            ch.update(A_ineq=None, b_ineq=None)
        par.update(ch)
        if par["solver"] in ("irls-ls", "lbfgs", "trust-constr") and (
                np.any(np.asarray(par["l1_ratio"]) != 0)
                or (par["solver"] != "irls-ls" and rng.random() < .5)):
            ch["solver"] = par["solver"] = "auto"
        mon.event("solver:" + par["solver"])
        if par["selection"] == "random" and par["random_state"] is None:
            ch["random_state"] = par["random_state"] = 5
        est.set_params(**ch)
        params = est.get_params(deep=False)
        y = None if d.form == "two_sided" else fam_y(params, d)
        store = bool(rng.random() < .35)
        det = dict(form=d.form, prev=prev, before=before, cv=cv, changed=sorted(ch),
                   family=family_name(params["family"]), step=step)

        def fit(e):
            return outcome(e.fit, d.X, y, sample_weight=d.w, offset=d.off,
                           store_covariance_matrix=store)
        r1 = fit(est)
        twin = cls(**params)
        r2 = fit(twin)
        mon.check(r1[0] == r2[0] and (r1[0] == "ok" or r1[1] == r2[1]),
                  "fit after a history succeeds or fails differently from a fresh estimator",
                  got=str(r1[1])[:80], want=str(r2[1])[:80], **det)
        mon.event("twin")
        mon.state(cv, prev, d.form, before, det["family"], store, params["drop_first"],
                  str(params.get("alpha_search")))
        if r1[0] != "ok":
            mon.event("fit-refused")
            prev, before = "failed", "fit refused"
            continue
        mon.check(r1[1] is est, "fit does not return the estimator", **det)
        A, B = public_state(est), public_state(twin)
        mon.check(list(A) == list(B), "a refitted estimator has other public attributes than a "
                  "fresh one", got=sorted(set(A) ^ set(B)), **det)
        compare(mon, "public state after a history differs from a fresh estimator's", A, B, **det)
        qa, qb = battery(est, d, params), battery(twin, d, params)
        compare(mon, "a method's result after a history differs from a fresh estimator's", qa, qb,
                **det)
        compare(mon, "calling inference and prediction methods changed the public state", A,
                public_state(est), **det)
        prev, before = d.form, ""
        # ---- what follows the fit
        for act in rng.permutation(["clone", "pickle", "repeat", "fail", "alias", "interleave",
                                    "infer"])[:3]:
            if act == "clone":
                c = sklearn.base.clone(est)
                a, b = est.get_params(deep=False), c.get_params(deep=False)
                mon.check(sorted(a) == sorted(b), "clone has other parameters", **det)
                compare(mon, "clone changes a parameter", a, b, **det)
                mon.check(not any(k.endswith("_") for k in vars(c)), "a clone carries fitted state",
                          got=[k for k in vars(c) if k.endswith("_")], **det)
                r = fit(c)
                mon.check(r[0] == "ok", "a clone cannot be fitted", got=str(r[1]), **det)
                if r[0] == "ok":
                    compare(mon, "a fitted clone differs", A, public_state(c), **det)
                mon.event("clone")
            elif act == "pickle":
                how = str(rng.choice(["pickle", "deepcopy", "copy", "pickle2"]))
                if how == "pickle":
                    c = pickle.loads(pickle.dumps(est))
                elif how == "pickle2":
                    c = pickle.loads(pickle.dumps(est, protocol=2))
                elif how == "deepcopy":
                    c = copy.deepcopy(est)
                else:
                    c = copy.copy(est)
                compare(mon, f"state lost by {how}", public_state(est), public_state(c), **det)
                compare(mon, f"a {how} copy answers differently", qa, battery(c, d, params), **det)
                if rng.random() < .5:  # the copy lives on its own
                    r = fit(c)
                    if how != "copy":
                        compare(mon, "refitting a copy changes the original", A,
                                public_state(est), **det)
                    mon.check(r[0] == "ok", f"a {how} copy cannot be refitted", **det)
                mon.event("pickle")
            elif act == "repeat":
                if isinstance(params["random_state"], (int, type(None))) and (
                        params["selection"] == "cyclic" or params["random_state"] is not None):
                    fit(est)
                    compare(mon, "repeating a fit does not reproduce it", A, public_state(est),
                            **det)
                    mon.event("repeat")
            elif act == "fail":
                how = int(rng.integers(3))
                bad = {0: dict(X=d.X, y=np.full(d.n, -1.0) if how == 0 else None),
                       1: dict(X=d.X, y=np.r_[d.y, 1.0]),
                       2: dict(X=d.X, y=d.y, sample_weight=-np.ones(d.n))}[how]
                r = outcome(est.fit, **bad)
                if r[0] == "raised":
                    mon.event("failed-fit")
                    before = "failed fit"
                    r = fit(est)
                    mon.check(r[0] == "ok", "an estimator cannot be fitted after a failed fit",
                              got=str(r[1]), **det)
                    compare(mon, "a fit after a failed fit differs", A, public_state(est), **det)
                    compare(mon, "a method after a failed fit differs", qb,
                            battery(est, d, params), **det)
                else:
                    fit(est)
            elif act == "alias":
                if d.form in ("c", "f"):
                    Xc, yc = d.X.copy(order="K"), fam_y(params, d).copy()
                    wc = None if d.w is None else d.w.copy()
                    oc = None if d.off is None else d.off.copy()
                    outcome(est.fit, Xc, yc, sample_weight=wc, offset=oc,
                            store_covariance_matrix=store)
                    for v in (Xc, yc, wc, oc):
                        if v is not None:
                            v[...] = np.nan
                    compare(mon, "overwriting the training arrays after fit changes the fitted "
                            "model", A, public_state(est), **det)
                    compare(mon, "overwriting the training arrays after fit changes an answer", qb,
                            battery(est, d, params), **det)
                    mon.event("alias")
            elif act == "interleave":
                d2 = pool[rng.integers(len(pool))]
                o = other.get_params(deep=False)
                other.set_params(formula=d2.formula, cat_missing_method=d2.miss,
                                 family=params["family"] if params["family"] != "binomial"
                                 else "poisson")
                if not o["fit_intercept"]:
                    other.set_params(scale_predictors=False)
                outcome(other.fit, d2.X, None if d2.form == "two_sided" else d2.y,
                        sample_weight=d2.w)
                outcome(other.predict, d2.new)
                compare(mon, "fitting another estimator changed this one", A, public_state(est),
                        **det)
                compare(mon, "fitting another estimator changed an answer of this one", qa,
                        battery(est, d, params), **det)
                before = "other fitted"
            else:
                before = str(rng.choice(["predict", "cov", "aic", "by_alpha"]))
                battery(est, d, params, light=before == "predict")
    mon.sample(dict(case=case, last=prev))


def roundtrip(rng, mon, cls, sklearn):
    """Constructor arguments are stored as given and survive clone and set_params."""
    import inspect
    names = [k for k in inspect.signature(cls.__init__).parameters if k != "self"]
    vals = {}
    for k in names:
        v = [float(rng.normal()), rng.normal(size=3), ["a", 1], ("t", 2), {"z": 1}, None,
             "text", int(rng.integers(99)), True][rng.integers(9)]
        vals[k] = v
    est = cls(**vals)
    got = est.get_params(deep=False)
    mon.check(sorted(got) == sorted(names), "get_params does not list the constructor arguments",
              got=sorted(set(got) ^ set(names)))
    for k in names:
        mon.check(got[k] is vals[k], "a constructor argument is not stored as given", name=k)
    c = cls().set_params(**got)
    for k in names:
        mon.check(c.get_params(deep=False)[k] is vals[k], "set_params(get_params()) loses a "
                  "parameter", name=k)
    c = sklearn.base.clone(est)
    for k in names:
        r = same(c.get_params(deep=False)[k], vals[k], k)
        mon.check(r is None, "clone changes a constructor argument", name=k, where=r)
    for k, p in inspect.signature(cls.__init__).parameters.items():
        if k != "self":
            mon.check(cls().get_params(deep=False)[k] is p.default or
                      cls().get_params(deep=False)[k] == p.default,
                      "a default argument is not stored as given", name=k)
    mon.event("roundtrip")
    mon.state("roundtrip", cls.__name__, *[type(v).__name__ for v in vals.values()][:4])


if __name__ == "__main__":
    import checks.c16 as mod
    harness.main(mod)
