"""C15: no call changes the caller's data or the constructor parameters."""
import warnings

import numpy as np
import scipy.sparse as sp

from vlib import gen, harness
from vlib.harness import Skip

PROPERTY = "C15"
RULE = ("every public call (fit, predict, linear_predictor, score, covariance_matrix, std_errors, "
        "coef_table, wald_test, aic) of random estimators with random argument containers, dtypes, "
        "layouts and read-only flags, including calls made to fail (invalid values, warnings as "
        "errors, a family raising in mid-iteration); non-trivial = byte digests of every argument "
        "and constructor parameter compared before and after the call; distinct = call, outcome, "
        "containers, solver, parameters present, read-only")
MINIMUM = {"quick": {"oracle": 6000, "states": 2000, "failed-call": 500, "read-only": 500,
                     "call:fit": 1200, "call:predict": 400, "call:covariance_matrix": 150},
           "thorough": {"oracle": 60000, "states": 8000}}


def plan(tier, seed):
    n = 4000 if tier == "quick" else 20000
    return [{"seed": seed, "i": i} for i in range(n)]


# ------------------------------------------------------------------ digests
def digest(o, depth=0):
    import pandas as pd
    import polars as pl
    import tabmat as tm
    if depth > 8:
        return "..."
    d = lambda x: digest(x, depth + 1)  # noqa: E731
    if o is None or isinstance(o, (str, int, float, bool, bytes)):
        return (type(o).__name__, repr(o))
    if isinstance(o, tm.SplitMatrix):
        return ("split", [d(m) for m in o.matrices], [d(np.asarray(i)) for i in o.indices],
                str(o.dtype))
    if isinstance(o, tm.CategoricalMatrix):
        return ("cat", d(np.asarray(o.indices)), repr(list(o.cat.categories)) if hasattr(o, "cat")
                else "", o.drop_first, str(o.dtype), o.shape)
    if isinstance(o, tm.DenseMatrix):
        return ("tmdense", d(np.asarray(o._array)), str(o.dtype))
    if isinstance(o, tm.SparseMatrix):
        return ("tmsparse", d(o._array.data), d(o._array.indices), d(o._array.indptr), o.shape)
    if isinstance(o, np.ndarray):
        root = o
        while isinstance(root.base, np.ndarray):
            root = root.base
        raw = root.tobytes() if root.dtype != object else repr(root.tolist())
        return ("nd", str(o.dtype), o.shape, o.strides, o.flags.writeable, raw,
                o.tobytes() if o.dtype != object else repr(o.tolist()))
    if sp.issparse(o):
        if o.format == "coo":
            return ("coo", o.shape, d(o.data), d(o.row), d(o.col))
        return (o.format, o.shape, d(o.data), d(o.indices), d(o.indptr))
    if isinstance(o, pd.Series):
        return ("series", d(o.index.to_numpy()), str(o.dtype), o.name, d(o.to_numpy()),
                repr(list(o.cat.categories)) if isinstance(o.dtype, pd.CategoricalDtype) else "")
    if isinstance(o, pd.DataFrame):
        return ("frame", list(map(str, o.columns)), [d(o[c]) for c in o.columns])
    if isinstance(o, pl.Series):
        return ("pls", str(o.dtype), repr(o.to_list()))
    if isinstance(o, pl.DataFrame):
        return ("plf", repr(o.schema), [repr(o[c].to_list()) for c in o.columns])
    if isinstance(o, dict):
        return ("dict", [(repr(k), d(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [d(v) for v in o])
    if hasattr(o, "__dict__"):
        return (type(o).__name__, [(k, d(v)) for k, v in sorted(vars(o).items())
                                   if k not in ("calls",)])
    return repr(o)


def freeze(o):
    """Make every buffer below o read-only, where the container allows it."""
    import pandas as pd
    import tabmat as tm
    if isinstance(o, np.ndarray):
        o.setflags(write=False)
    elif isinstance(o, tm.MatrixBase):
        return
    elif sp.issparse(o):
        for a in ("data", "indices", "indptr", "row", "col"):
            if hasattr(o, a) and isinstance(getattr(o, a), np.ndarray):
                getattr(o, a).setflags(write=False)
    elif isinstance(o, (list, tuple)):
        for v in o:
            freeze(v)
    elif isinstance(o, pd.DataFrame):
        for c in o.columns:
            v = o[c].to_numpy(copy=False) if not isinstance(o[c].dtype, pd.CategoricalDtype) else \
                None
            if v is not None and v.dtype != object:
                v.setflags(write=False)


def store_hostile(rng, data, kind, drop):
    """Containers an in-place conversion would tempt to modify."""
    X = data.dense(drop)
    if kind == "csc_unsorted":
        M = sp.csc_matrix(X)
        for j in range(M.shape[1]):
            s = slice(M.indptr[j], M.indptr[j + 1])
            M.indices[s] = M.indices[s][::-1].copy()
            M.data[s] = M.data[s][::-1].copy()
        M.has_sorted_indices = False
        return M
    if kind == "csc_zeros":
        M = sp.csc_matrix(X)
        M.data[rng.random(len(M.data)) < .3] = 0.0
        return M
    if kind == "csr_dup":
        M = sp.coo_matrix(X)
        M2 = sp.coo_matrix((np.r_[M.data / 2, M.data / 2], (np.r_[M.row, M.row],
                                                            np.r_[M.col, M.col])), shape=M.shape)
        return M2
    if kind == "int":
        return np.round(X * 3).astype(np.int64)
    if kind == "int_f":
        return np.asfortranarray(np.round(X * 3).astype(np.int32))
    if kind == "df_mixed":
        import pandas as pd
        return pd.DataFrame({f"x{j}": (np.round(X[:, j] * 3).astype(int) if j % 2 else X[:, j])
                             for j in range(X.shape[1])})
    if kind == "df_block":
        import pandas as pd
        return pd.DataFrame(X, columns=[f"x{j}" for j in range(X.shape[1])])
    if kind == "rev":
        return X[::-1][::-1]
    if kind == "readstride":
        big = np.zeros((X.shape[0], 2 * X.shape[1]))
        big[:, ::2] = X
        return big[:, ::2]
    return data.store(kind, drop)


NUM = ["c", "f", "strided", "list", "csc", "csr", "coo", "csc64", "tm_dense", "tm_dense_f",
       "tm_sparse", "tm_split", "df", "polars", "f32", "f32c", "csc_unsorted", "csc_zeros",
       "csr_dup", "int", "int_f", "df_mixed", "df_block", "rev", "readstride", "csc_array"]


def vec(rng, v, kinds=("nd", "strided", "list", "series", "f32", "polars", "col")):
    import pandas as pd
    import polars as pl
    k = kinds[rng.integers(len(kinds))]
    v = np.asarray(v, float)
    if k == "nd":
        return v.copy(), k
    if k == "strided":
        return np.repeat(v, 2)[::2], k
    if k == "list":
        return [float(x) for x in v], k
    if k == "series":
        return pd.Series(v.copy(), index=np.arange(len(v))[::-1]), k
    if k == "f32":
        return v.astype(np.float32), k
    if k == "polars":
        return pl.Series(v.copy()), k
    return v.copy(), "nd"


def SPARSE(store):
    return store.startswith(("cs", "coo"))


class Boom(Exception):
    pass


def raising_family(base, k):
    """The family, raising from inside the solver after k kernel calls."""
    cls = type(base)

    class Raising(cls):
        def _count(self):
            self.calls = getattr(self, "calls", 0) + 1
            if self.calls > k:
                raise Boom("injected")

        def eta_mu_deviance(self, *a, **kw):
            self._count()
            return super().eta_mu_deviance(*a, **kw)

        def rowwise_gradient_hessian(self, *a, **kw):
            self._count()
            return super().rowwise_gradient_hessian(*a, **kw)

    new = Raising.__new__(Raising)
    new.__dict__.update(vars(base))
    return new


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    import glum
    rng = harness.rng_for("C15", case["seed"], case["i"])
    kind = ["plain", "plain", "plain", "path", "cv"][case["i"] % 5]
    pr = gen.make_problem(rng, convex=True, spread=.5, n=int(rng.choice([12, 25, 40, 60])),
                          p=int(rng.integers(1, 5)))
    fc, data = pr.fc, pr.data
    if fc.limited:
        raise Skip("limited link")
    n = data.n
    drop = bool(data.has_cat and rng.random() < .5)
    X = data.dense(drop)
    p = X.shape[1]
    if p == 0:
        raise Skip("no columns")
    store = ["df", "polars", "tm_cat"][rng.integers(3)] if data.has_cat else \
        NUM[rng.integers(len(NUM))]
    a = pr.pen["alpha"] if rng.random() < .8 else 0.0
    pen = gen.make_penalty(rng, p, alpha=a)
    if kind == "cv" and pr.wkind == "zeros":
        pr.w = None
    fi = bool(rng.random() < .8)
    kw = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi,
              drop_first=drop, gradient_tol=1e-5, max_iter=60,
              scale_predictors=bool(fi and rng.random() < .35))
    kw.update(pen)
    kw["l1_ratio"] = float(kw["l1_ratio"])
    present = []
    if kind in ("path", "cv"):
        kw.pop("alpha")
        al = [.5, .1, .02]
        al = [al, np.array(al), tuple(al)][rng.integers(3)]
        kw["alpha" if kind == "path" else "alphas"] = al
        if kind == "path":
            kw["alpha_search"] = True
        else:
            kw["cv"] = 2
            if rng.random() < .4:
                kw["l1_ratio"] = [0.3, kw["l1_ratio"]]
    # bounds, constraints, start values, each in some container
    r = rng.random()
    solver = "auto"
    if r < .3:
        lo, hi = rng.uniform(-1, 0, p), rng.uniform(0.05, 1, p)
        kw["lower_bounds"], kw["upper_bounds"] = lo, hi
        if rng.random() < .3:
            kw["lower_bounds"] = list(lo)
        if rng.random() < .2:
            kw["upper_bounds"] = None
        present.append("bounds")
    elif r < .45 and kind == "plain" and not np.any(kw["l1_ratio"]):
        A = rng.normal(size=(2, p))
        kw["A_ineq"], kw["b_ineq"] = A, np.abs(rng.normal(size=2))
        kw["solver"] = solver = "trust-constr"
        present.append("ineq")
    elif kind != "cv" and not np.any(kw["l1_ratio"]):
        solver = ["auto", "irls-ls", "lbfgs", "irls-cd", "trust-constr"][rng.integers(5)]
        if kw["scale_predictors"] is False:
            kw["solver"] = solver
        else:
            solver = "auto"
    if rng.random() < .35:
        sp_ = rng.normal(size=p + fi) * .05
        kw["start_params"] = sp_ if rng.random() < .7 else list(sp_)
        present.append("start")
    if rng.random() < .2:
        kw["warm_start"] = True
    if isinstance(kw.get("P1"), np.ndarray):
        present.append("P1")
        if rng.random() < .3:
            kw["P1"] = list(kw["P1"])
    if "P2" in kw:
        present.append("P2" + type(kw["P2"]).__name__)
        if isinstance(kw["P2"], np.ndarray) and rng.random() < .3:
            kw["P2"] = np.asfortranarray(kw["P2"])
    fault = ["", "", "", "warn", "boom", "bad"][rng.integers(6)]
    if fault == "boom":
        import glum as g
        fam = kw["family"] if not isinstance(kw["family"], str) else \
            g._glm.get_family(kw["family"])
        kw["family"] = raising_family(fam, int(rng.integers(0, 8)))
    if fault == "warn":
        kw["max_iter"] = int(rng.integers(1, 3))
    cls = GeneralizedLinearRegressorCV if kind == "cv" else GeneralizedLinearRegressor
    try:
        Xs = store_hostile(rng, data, store, drop)
    except ValueError:
        raise Skip("container does not apply")
    ya, yk = vec(rng, pr.y, ("nd", "nd", "strided", "list", "series", "f32"))
    if np.all(pr.y == np.round(pr.y)) and rng.random() < .3:
        ya, yk = pr.y.astype(np.int64), "int"
    wa, wk = (None, "none") if pr.w is None else vec(rng, pr.w, ("nd", "strided", "list", "series",
                                                                 "f32", "nd"))
    oa, ok = (None, "none") if pr.off is None else vec(rng, pr.off, ("nd", "strided", "list",
                                                                     "series", "f32", "nd"))
    if yk == "f32" and fc.kind == "gamma":
        ya = np.maximum(np.asarray(pr.y, np.float32), np.float32(1e-3))
    frozen = rng.random() < .5
    fit_args = dict(X=Xs, y=ya, sample_weight=wa, offset=oa)
    if fault == "bad":
        j = int(rng.integers(3))
        if j == 0 and not isinstance(ya, list):
            fit_args["y"] = ya = np.r_[np.asarray(pr.y, float)[:-1], np.nan]
        elif j == 1:
            fit_args["sample_weight"] = wa = np.r_[-1.0, np.ones(n - 1)]
        else:
            fit_args["offset"] = oa = np.ones(n + 1)
    if frozen:
        for v in list(fit_args.values()) + list(kw.values()):
            freeze(v)
        mon.event("read-only")
    est = cls(**kw)
    params0 = est.get_params(deep=False)
    det = dict(store=store, y=yk, w=wk, off=ok, model=kind, solver=solver, frozen=frozen,
               present=present, family=fc.name, fault=fault,
               scale=kw["scale_predictors"])

    def call(name, args, expect_error=False, f=None, raise_warn=False):
        before = {k: digest(v) for k, v in args.items()}
        par = {k: digest(v) for k, v in params0.items()}
        out, err = None, None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("error" if raise_warn else "ignore")
                with np.errstate(all="ignore"):
                    out = (f or getattr(est, name))(**args)
        except Exception as e:
            err = e
        changed = [k for k, v in args.items() if digest(v) != before[k]]
        mon.check(not changed, f"{name} changed the caller's argument(s)", changed=changed,
                  outcome=type(err).__name__, **det)
        now = est.get_params(deep=False)
        pch = [k for k in params0 if now.get(k, det) is not params0[k] or digest(now[k]) != par[k]]
        mon.check(not pch, f"{name} modified constructor parameter(s)", changed=pch,
                  outcome=type(err).__name__, **det)
        mon.event("call:" + name)
        if err is not None:
            mon.event("failed-call")
        mon.state(name, type(err).__name__, store, yk, wk, solver, ",".join(present), frozen)
        if err is not None and not expect_error:
            s = str(err)
            if isinstance(err, np.linalg.LinAlgError) or "infs or NaNs" in s or "in y range" in s \
                    or "No variation" in s:
                raise Skip("degenerate fit said so")
            if frozen and "read-only" in s:
                if SPARSE(store):
                    raise Skip("tabmat's sparse kernels take no read-only buffers")
                mon.violation(f"{name} refuses read-only arguments: {s[:200]}", **det)
                raise Skip("read-only refused")
            raise err
        return out, err

    out, err = call("fit", fit_args, expect_error=fault != "", raise_warn=fault == "warn")
    if fault == "bad":
        mon.check(err is not None, "a call with invalid values did not fail", **det)
    if err is not None:
        if fault == "boom" and not isinstance(err, Boom):
            if frozen and "read-only" in str(err) and SPARSE(store):
                raise Skip("tabmat's sparse kernels take no read-only buffers")
            if isinstance(err, np.linalg.LinAlgError) or "No variation" in str(err) or \
                    "in y range" in str(err):
                raise Skip("degenerate fit said so")
            raise err
        return
    if frozen and rng.random() < .5 and fault == "" and solver != "trust-constr":
        # the read-only call computes what a writable one does
        twin = cls(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
        tol = 5e-3 if "f32" in store else 1e-5
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            twin.fit(*(v.copy() if isinstance(v, np.ndarray) else v for v in
                       (Xs, ya, wa, oa)))
        mon.close(est.coef_, twin.coef_, "read-only arguments change the result",
                  rtol=tol, atol=tol, **det)
    if not np.all(np.isfinite(est.coef_)):
        raise Skip("non-finite coefficients")
    yl = np.asarray(ya, float)
    m = int(rng.integers(2, 7))
    for _ in range(m):
        j = int(rng.integers(9))
        if j == 0:
            d = dict(X=Xs, offset=oa)
            if wa is not None and rng.random() < .5:
                d["sample_weight"] = wa
            if kind == "path" and rng.random() < .6:
                d["alpha"] = [.5, .1] if rng.random() < .5 else np.array([.1, .02])
            if store == "list":
                d["X"] = np.asarray(Xs)
            call("predict", d)
        elif j == 1:
            call("linear_predictor", dict(X=np.asarray(Xs) if store == "list" else Xs, offset=oa))
        elif j == 2:
            call("score", dict(X=np.asarray(Xs) if store == "list" else Xs, y=ya,
                               sample_weight=wa, offset=oa))
        elif j in (3, 4, 5):
            cl = [rng.integers(0, 4, n), np.array(["a", "b", "c"])[rng.integers(0, 3, n)],
                  list(map(int, rng.integers(0, 4, n)))][rng.integers(3)]
            d = dict(X=Xs, y=ya, sample_weight=wa, offset=oa)
            if rng.random() < .6:
                d["clusters"] = cl
            else:
                d["robust"] = bool(rng.random() < .5)
            if rng.random() < .3:
                mu = np.full(n, float(np.average(yl)))
                d["mu"] = mu
            if frozen:
                freeze(d.get("clusters")), freeze(d.get("mu"))
            if j == 4 and rng.random() < .5:
                d["R"], d["r"] = np.eye(p + fi)[:1], np.array([0.1])
                call("wald_test", d, expect_error=True)
            else:
                call(["covariance_matrix", "std_errors", "coef_table"][j - 3], d, expect_error=True)
        elif j == 6 and kind == "plain":
            call("aic", dict(X=Xs, y=ya, sample_weight=wa), expect_error=True)
        elif j == 7:
            call("fit", fit_args, expect_error=fault == "boom", raise_warn=False)
        elif j == 8:
            bad = dict(X=np.zeros((3, p + 2)))
            _, e = call("predict", bad, expect_error=True)
    mon.sample(det)


if __name__ == "__main__":
    import checks.c15 as mod
    harness.main(mod)
