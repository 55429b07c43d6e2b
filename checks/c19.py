"""C19: invalid input is refused before it can produce a wrong model."""
import warnings

import numpy as np

from vlib import gen, harness, ref
from vlib.harness import Skip

PROPERTY = "C19"
RULE = ("fault injection: a random valid call (family, container, weights, offset, penalty, bounds, "
        "constraints, path or cross validation; including extreme but valid arguments) must be accepted, "
        "the same call with exactly one argument corrupted must raise; non-trivial = corrupted call "
        "executed and judged; distinct = corruption, family, container, estimator")
MINIMUM = {"quick": {"oracle": 5000, "states": 2500, "accepted": 1500, "kind:y": 500, "kind:X": 500,
                     "kind:w": 300, "wide": 20, "contradictory": 40, "kind:offset": 200, "kind:penalty": 500, "kind:bounds": 200,
                     "kind:ineq": 200, "kind:solver": 300, "kind:option": 500, "kind:predict": 500},
           "thorough": {"oracle": 60000, "states": 8000}}
BADY = {"poisson": [-1.0, -1e-9], "gamma": [0.0, -1.0], "invgauss": [0.0, -2.0],
        "binomial": [1.5, -0.1, 2.0, 1 + 1e-6], "negbin": [-1.0, -1e-6]}


def plan(tier, seed):
    n = 10000 if tier == "quick" else 30000
    return [{"seed": seed, "i": i} for i in range(n)]


def bad_y(fc, rng):
    if fc.kind == "tweedie":
        c = [] if fc.param < 1 else [-1.0, -1e-9] if fc.param < 2 else [0.0, -1.0]
    else:
        c = BADY.get(fc.kind)
    return None if not c else c[rng.integers(len(c))]


CONTAINERS = ["c", "f", "list", "csc", "csr", "df", "polars", "tm_dense", "tm_sparse", "tm_split",
              "f32", "object", "coo", "sparray", "df_sparse"]


def store(X, kind):
    import pandas as pd
    import polars as pl
    import scipy.sparse as sp
    import tabmat as tm
    if kind == "c":
        return np.ascontiguousarray(X)
    if kind == "f":
        return np.asfortranarray(X)
    if kind == "f32":
        return X.astype(np.float32)
    if kind == "list":
        return X.tolist()
    if kind == "object":
        return X.astype(object)
    if kind in ("csc", "csr", "coo"):
        return getattr(sp, kind + "_matrix")(X)
    if kind == "sparray":
        return sp.csc_array(X)
    if kind == "df":
        return pd.DataFrame(X, columns=[f"v{j}" for j in range(X.shape[1])])
    if kind == "df_sparse":
        return pd.DataFrame({f"v{j}": pd.arrays.SparseArray(X[:, j]) if j % 2 else X[:, j]
                             for j in range(X.shape[1])})
    if kind == "polars":
        return pl.DataFrame({f"v{j}": X[:, j] for j in range(X.shape[1])})
    if kind == "tm_dense":
        return tm.DenseMatrix(np.asfortranarray(X))
    if kind == "tm_sparse":
        return tm.SparseMatrix(sp.csc_matrix(X))
    k = max(1, X.shape[1] // 2)
    if k == X.shape[1]:
        return tm.DenseMatrix(np.asfortranarray(X))
    return tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(X[:, :k])),
                           tm.SparseMatrix(sp.csc_matrix(X[:, k:]))])


class Call:
    def __init__(self, cls, params, X, y, w, off):
        self.cls, self.params, self.X, self.y, self.w, self.off = cls, params, X, y, w, off

    def but(self, **k):
        c = Call(self.cls, self.params, self.X, self.y, self.w, self.off)
        for a, v in k.items():
            setattr(c, a, v)
        return c

    def par(self, **k):
        return self.but(params=dict(self.params, **k))

    def run(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = self.cls(**self.params)
            return e.fit(self.X, self.y, sample_weight=self.w, offset=self.off)


def poke(rng, v, bad):
    v = np.array(v, dtype=float)
    v[rng.integers(len(v))] = bad
    return v


def psd(rng, p):
    """A positive semi-definite P2 users build, at extreme scales too."""
    import scipy.sparse as sp
    r = rng.integers(6)
    if r == 0:
        D = np.diff(np.eye(p), axis=0) if p > 1 else np.eye(p)
        P = D.T @ D
    elif r == 1:
        v = rng.normal(size=p)
        P = np.outer(v, v)
    elif r == 2:
        A = rng.normal(size=(p, max(1, p - 1)))
        P = A @ A.T
    elif r == 3:
        return np.where(rng.random(p) < .4, 0.0, rng.uniform(0, 3, p))
    elif r == 4:
        P = np.zeros((p, p))
    else:
        A = rng.normal(size=(p, p))
        P = A @ A.T
    P = P * 10.0 ** rng.choice([-12, -6, 0, 0, 0, 6, 10])
    if rng.random() < .15:
        P = P.astype(np.float32).astype(float)
        P = (P + P.T) / 2 + np.eye(p) * np.abs(P).max() * 1e-6
    if rng.random() < .4:
        return getattr(sp, ["csc_matrix", "csr_matrix", "coo_matrix", "csc_array", "csr_array",
                            "coo_array", "dia_array", "lil_matrix"][rng.integers(8)])(P)
    return P if rng.random() < .7 else np.asfortranarray(P)


def corruptions(rng, base, fc, X, y, kind, cv, search):
    """(group, name, corrupted call)."""
    import scipy.sparse as sp
    n, p = X.shape
    nan = [np.nan, np.inf, -np.inf]
    out = []

    def add(g, name, call):
        out.append((g, name, call))
    b = bad_y(fc, rng)
    if b is not None:
        add("y", f"out of range {b}", base.but(y=poke(rng, y, b)))
    for v in nan:
        add("y", f"{v}", base.but(y=poke(rng, y, v)))
    add("y", "longer", base.but(y=np.r_[y, y[:1]]))
    add("y", "shorter", base.but(y=y[:-1]))
    add("y", "two columns", base.but(y=np.column_stack([y, y])))
    add("y", "strings", base.but(y=np.array(["a"] * n)))
    add("y", "none", base.but(y=None))
    add("y", "object nan", base.but(y=poke(rng, y, np.nan).astype(object)))
    for v in nan:
        if kind in ("f32",) or True:
            Z = X.copy()
            Z[rng.integers(n), rng.integers(p)] = v
            add("X", f"{v}", base.but(X=store(Z, kind)))
    Xl = X[:-1]
    add("X", "fewer rows", base.but(X=store(Xl, kind)))
    add("X", "more rows", base.but(X=store(np.vstack([X, X[:1]]), kind)))
    if kind in ("c", "f", "list", "f32"):
        add("X", "1d", base.but(X=X[:, 0].copy()))
        add("X", "3d", base.but(X=X[None]))
        add("X", "no features", base.but(X=X[:, :0]))
        add("X", "no rows", base.but(X=X[:0], y=y[:0], w=None, off=None))
        add("X", "strings", base.but(X=np.array([["a"] * p] * n)))
        add("X", "complex", base.but(X=X + 1j))
    w = np.ones(n) if base.w is None else base.w
    add("w", "negative", base.but(w=poke(rng, w, -1e-6 if rng.random() < .5 else -3.0)))
    for v in nan:
        add("w", f"{v}", base.but(w=poke(rng, w, v)))
    add("w", "all zero", base.but(w=np.zeros(n)))
    add("w", "longer", base.but(w=np.r_[w, 1.0]))
    add("w", "shorter", base.but(w=w[:-1]))
    add("w", "2d", base.but(w=np.column_stack([w, w])))
    add("w", "scalar negative", base.but(w=-1.0))
    add("w", "scalar zero", base.but(w=0.0))
    l2 = dict(alphas=[.1, .01]) if cv else {} if search else dict(alpha=.1)
    l2 = base.par(l1_ratio=0.0, P1="identity", lower_bounds=None, upper_bounds=None, A_ineq=None,
                  b_ineq=None, solver=str(rng.choice(["lbfgs", "auto", "irls-ls"])), **l2)
    for v in nan:
        if v > 0 or v != v:
            add("w", f"scalar {v}", base.but(w=[v, np.float64(v), np.float32(v)][rng.integers(3)]))
        add("offset", f"scalar {v}", l2.but(off=[v, np.float64(v)][rng.integers(2)]))
        add("offset", f"{v} in an array", l2.but(off=poke(rng, np.zeros(n), v)))
    if cv and base.params.get("cv") in (2, 3):
        wz = w.copy()
        wz[:n // 3 + 1] = 0    # no weight in the first test fold, but in every training set
        add("w", "no weight in a test fold", base.par(cv=3).but(w=wz))
        wz = np.zeros(n)
        wz[:n // base.params["cv"]] = 1
        add("w", "no weight outside a fold", base.but(w=wz))
    o = np.zeros(n) if base.off is None else base.off
    for v in nan:
        add("offset", f"{v}", base.but(off=poke(rng, o, v)))
    add("offset", "longer", base.but(off=np.r_[o, 0.0]))
    add("offset", "shorter", base.but(off=o[:-1]))
    add("offset", "2d", base.but(off=np.column_stack([o, o])))
    # penalties
    l1 = base.params.get("l1_ratio", 0)
    if not cv:
        if search:
            al = np.asarray(base.params["alpha"], float)
            add("penalty", "negative alpha in path", base.par(alpha=[*al, -.1]))
            add("penalty", "scalar alpha with alpha_search", base.par(alpha=.1))
            add("penalty", "text in path", base.par(alpha=["a", "b"]))
        else:
            for v in (-1e-9, -1.0, "0.1", [.1], [.1, .2]):
                add("penalty", f"alpha={v!r}", base.par(alpha=v))
        for v in (-.1, 1.1, "0.5", None):
            add("penalty", f"l1_ratio={v!r}", base.par(l1_ratio=v))
    else:
        add("penalty", "negative alpha in path", base.par(alphas=[.1, -.1]))
        add("penalty", "l1_ratio=2", base.par(l1_ratio=2.0))
        add("penalty", "l1_ratio in list", base.par(l1_ratio=[.5, 1.5]))
        add("option", "cv=1", base.par(cv=1))
        add("option", "cv='x'", base.par(cv="x"))
    # penalties that are not finite: gradient-based solvers would stop where they started
    bad = float(rng.choice([np.nan, np.inf]))
    grid = dict(alphas=None) if cv else dict(alpha=None, alpha_search=True)
    for tag, b in [("", base), (" with lbfgs", base.par(
            solver="lbfgs", l1_ratio=0.0, lower_bounds=None, upper_bounds=None, A_ineq=None,
            b_ineq=None, P1="identity"))]:
        if cv:
            add("penalty", f"{bad} in path{tag}", b.par(alphas=[.1, bad]))
            add("penalty", f"l1_ratio nan in list{tag}", b.par(l1_ratio=[0.0, np.nan]))
        else:
            add("penalty", f"alpha={bad}{tag}", b.par(alpha_search=False, alpha=bad))
            add("penalty", f"{bad} in path{tag}", b.par(alpha_search=True, alpha=[.1, bad]))
        add("penalty", f"l1_ratio nan{tag}", b.par(l1_ratio=np.nan))
        for nm in ("min_alpha_ratio", "min_alpha"):
            v = float(rng.choice([np.nan, -.1, 0.0]))
            add("penalty", f"{nm}={v}{tag}", b.par(**grid, n_alphas=3, **{nm: v}))
    if l1:
        P1 = np.ones(p)
        add("penalty", "P1 negative", base.par(P1=poke(rng, P1, -.5)))
        add("penalty", "P1 longer", base.par(P1=np.ones(p + 1)))
        add("penalty", "P1 2d", base.par(P1=np.ones((p, 2))))
        add("penalty", "P1 text", base.par(P1="foo"))
        if p > 1:
            add("penalty", "P1 shorter", base.par(P1=np.ones(p - 1)))
    A = rng.normal(size=(p, p))
    good = A @ A.T + np.eye(p)
    ev, V = np.linalg.eigh(good)
    ev[0] = -ev[-1] * 10 ** rng.uniform(-5, 0)
    indef = (V * ev) @ V.T
    indef = (indef + indef.T) / 2
    scale = 10.0 ** (rng.choice([-9, -4, 0, 0, 5]) if kind != "f32" else rng.choice([0, 0, 3]))
    if kind == "f32":
        ev[0] = -ev[-1] * 10 ** rng.uniform(-3, 0)
        indef = (V * ev) @ V.T
        indef = (indef + indef.T) / 2
    if l1 != 1:
        if p > 1:
            add("penalty", "P2 indefinite", base.par(P2=indef * scale))
            add("penalty", "P2 indefinite sparse", base.par(P2=sp.csc_matrix(indef * scale)))
            add("penalty", "P2 not square", base.par(P2=np.ones((p, p - 1))))
            add("penalty", "P2 smaller", base.par(P2=np.eye(p - 1)))
            add("penalty", "P2 shorter", base.par(P2=np.ones(p - 1)))
        add("penalty", "P2 negative diagonal", base.par(P2=poke(rng, np.ones(p), -1.0) * scale))
        add("penalty", "P2 negative definite", base.par(P2=-np.eye(p) * scale))
        add("penalty", "P2 larger", base.par(P2=np.eye(p + 1)))
        add("penalty", "P2 longer", base.par(P2=np.ones(p + 1)))
        add("penalty", "P2 larger sparse", base.par(P2=sp.eye(p + 1, format="csc")))
        add("penalty", "P2 text", base.par(P2="foo"))
        add("penalty", "P2 3d", base.par(P2=np.ones((p, p, 1))))
    # bounds and constraints
    j = rng.integers(p)
    lo, hi = np.full(p, -1.0), np.full(p, 1.0)
    lo2 = lo.copy()
    lo2[j] = 1.0 + 10.0 ** -rng.integers(1, 8)
    bs = dict(solver="irls-cd" if rng.random() < .5 else "auto")
    noneq = dict(A_ineq=None, b_ineq=None)
    bb = base.par(**noneq, **bs)
    add("bounds", "lower above upper", bb.par(lower_bounds=lo2, upper_bounds=hi))
    add("bounds", "scalar lower above upper", bb.par(lower_bounds=2.0, upper_bounds=1.0))
    add("bounds", "longer", bb.par(lower_bounds=np.full(p + 1, -1.0)))
    add("bounds", "2d", bb.par(upper_bounds=np.ones((p, 2))))
    add("bounds", "lower nan", bb.par(lower_bounds=poke(rng, lo, np.nan)))
    add("bounds", "upper nan", bb.par(upper_bounds=poke(rng, hi, np.nan)))
    add("bounds", "scalar nan", bb.par(lower_bounds=np.nan))
    if not l1:
        for s in ("irls-ls", "lbfgs", "closed-form", "trust-constr"):
            add("bounds", f"with {s}", base.par(**noneq, lower_bounds=lo, solver=s))
    if not l1 and not search:
        G, h = rng.normal(size=(2, p)), np.ones(2)
        t = base.par(lower_bounds=None, upper_bounds=None, A_ineq=G, b_ineq=h, solver="trust-constr")
        add("ineq", "wrong columns", t.par(A_ineq=np.ones((2, p + 1))))
        add("ineq", "wrong rows", t.par(b_ineq=np.ones(3)))
        add("ineq", "b missing", t.par(b_ineq=None))
        add("ineq", "A missing", t.par(A_ineq=None))
        add("ineq", "b 2d", t.par(b_ineq=np.ones((2, 1))))
        add("ineq", "A 1d", t.par(A_ineq=np.ones(p)))
        add("ineq", "A nan", t.par(A_ineq=np.vstack([poke(rng, G[0], np.nan), G[1]])))
        add("ineq", "b nan", t.par(b_ineq=poke(rng, h, np.nan)))
        add("ineq", "with bounds", t.par(lower_bounds=lo))
        for s in ("irls-ls", "irls-cd", "lbfgs", "closed-form"):
            add("ineq", f"with {s}", t.par(solver=s))
        add("ineq", "monotonic without formula", base.par(monotonic_constraints={"x": "increasing"}))
    # solvers
    add("solver", "unknown", base.par(solver="sag"))
    add("solver", "newton-cg", base.par(solver="newton-cg"))
    add("solver", "None", base.par(solver=None))
    plain = base.par(lower_bounds=None, upper_bounds=None, **noneq)
    # a single l1 penalty the solver cannot handle
    al1 = dict(alphas=[.1, .01], l1_ratio=.5) if cv else \
        dict(alpha=[.1, .01] if search else .1, l1_ratio=.5)
    for s in ("irls-ls", "lbfgs", "closed-form", "trust-constr"):
        add("solver", f"L1 with {s}", plain.par(solver=s, **al1))
    if not (fc.name == "normal/identity"):
        k = dict(alphas=[.1], l1_ratio=0.0) if cv else dict(l1_ratio=0.0)
        add("solver", "closed-form for a non-linear model", plain.par(solver="closed-form", **k))
    # options
    for name, vals in {
        "max_iter": [0, -1, 1.5, "10", None], "gradient_tol": [0, -1e-3, "x", np.nan],
        "step_size_tol": [0, -1.0, "x", np.nan], "selection": ["foo", None], "warm_start": [1, "yes", None],
        "copy_X": ["yes", 1], "check_input": ["no", None, 0], "fit_intercept": [1, "yes", None, 0],
        "family": ["foo", "poison", 3, None, "tweedie(a)"], "link": ["foo", 3, "logg"],
    }.items():
        v = vals[rng.integers(len(vals))]
        add("option", f"{name}={v!r}", base.par(**{name: v}))
    add("option", "scale without intercept", base.par(scale_predictors=True, fit_intercept=False))
    k = p + int(base.params.get("fit_intercept", True))
    for nm, v in (("longer", np.zeros(k + 1)), ("shorter", np.zeros(k - 1)), ("2d", np.zeros((k, 1))),
                  ("nan", poke(rng, np.zeros(k), np.nan)), ("text", "foo")):
        if k - 1 > 0 or nm != "shorter":
            add("option", "start_params " + nm, base.par(start_params=v))
    return out


def wide_penalty(rng, mon):
    """Sparse penalty matrices with thousands of columns."""
    import scipy.sparse as sp
    from glum import GeneralizedLinearRegressor
    n, p = 30, int(rng.choice([1999, 2000, 2001, 2600]))
    X = sp.random(n, p, .01, random_state=int(rng.integers(1 << 30)), format="csc")
    y = rng.normal(size=n) + 3
    D = sp.identity(p, format="csr")
    order = int(rng.integers(0, 4))
    for _ in range(order):
        D = D[1:] - D[:-1]
    P = (D.T @ D) * 10.0 ** rng.integers(-3, 4)
    if rng.random() < .3:   # scattered rank-deficient blocks
        A = sp.random(50, p, .01, random_state=int(rng.integers(1 << 30)))
        P = P + A.T @ A
    fmt = ["csc_matrix", "csr_matrix", "coo_matrix", "csc_array", "csr_array"][rng.integers(5)]
    base = Call(GeneralizedLinearRegressor,
                dict(family="normal" if rng.random() < .5 else "gamma", link="log",
                     solver="lbfgs", max_iter=2, alpha=1.0), X,
                np.abs(y) + .1, None, None)
    scale = abs(P).sum(axis=0).max()
    base.par(P2=getattr(sp, fmt)(P)).run()
    mon.event("accepted")
    mon.event("wide")
    mon.state("wide", p, order, fmt)
    j, k = rng.choice(p, 2, replace=False)
    v = np.zeros(p)
    if rng.random() < .5:
        v[j] = -1e-3 * scale - P.diagonal()[j]
        bad = P + sp.diags(v)
    else:                   # a 2x2 block with a positive diagonal and a negative eigenvalue
        c = 1e-2 * scale + np.sqrt((P.diagonal()[j] + 1e-9) * (P.diagonal()[k] + 1e-9))
        c = c + abs(P.tocsr()[j, k])
        bad = P + sp.coo_matrix(([c, c], ([j, k], [k, j])), shape=(p, p))
    mon.event("kind:penalty")
    judge(mon, "penalty: wide indefinite P2", base.par(P2=getattr(sp, fmt)(bad)).run, p=p,
          order=order, fmt=fmt)


def contradictory(rng, mon):
    """Inequalities that no coefficients satisfy: an error, or a warning that the constraints are violated."""
    import warnings

    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    from sklearn.exceptions import ConvergenceWarning
    n, p = 30, int(rng.integers(1, 4))
    X = rng.normal(size=(n, p))
    fam = str(rng.choice(["normal", "poisson", "gamma"]))
    y = np.exp(.2 * X[:, 0]) + rng.uniform(.1, 1, n)
    a = rng.normal(size=p)
    a /= np.abs(a).max()
    gap = 10 ** rng.uniform(-2, 1)
    kind = int(rng.integers(3))
    t = rng.normal()
    if kind == 0:      # a'b <= t and a'b >= t + gap
        A, b = np.array([a, -a]), np.array([t, -t - gap])
    elif kind == 1:    # 0'b <= -gap
        A, b = np.zeros((1, p)), np.array([-gap])
    else:              # each coefficient is at most -gap, but their sum is positive
        A, b = np.vstack([np.eye(p), -np.ones(p)]), np.r_[np.full(p, -gap), 0.0]
    cv = bool(rng.random() < .2)
    cls = GeneralizedLinearRegressorCV if cv else GeneralizedLinearRegressor
    params = dict(family=fam, A_ineq=A, b_ineq=b, max_iter=int(rng.choice([30, 100, 1000])),
                  gradient_tol=float(rng.choice([1e-3, 1e-6])))
    params.update(dict(alphas=[.1], cv=2) if cv else dict(alpha=.1))
    mon.event("contradictory")
    mon.state("contradictory", kind, fam, cv, p)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            est = cls(**params).fit(X, y)
        except ValueError as e:
            mon.check(str(e) != "", "refused without a message", what="contradictory constraints")
            return
    worst = float(np.max(A @ est.coef_ - b))
    told = [w for w in rec if issubclass(w.category, ConvergenceWarning)]
    mon.check(bool(told), "contradictory constraints are violated silently", violation=worst,
              kind=kind, family=fam, cv=cv)


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    rng = harness.rng_for("C19", case["seed"], case["i"])
    if case["i"] % 150 == 77:
        return wide_penalty(rng, mon)
    if case["i"] % 60 == 31:
        return contradictory(rng, mon)
    fc = gen.pick_family(rng, convex=True)
    if fc.limited:
        raise Skip("limited link")
    n, p = int(rng.choice([12, 25, 40])), int(rng.integers(1, 5))
    X = rng.normal(size=(n, p))
    off = gen.make_offset(rng, n, fc)
    y = np.asarray(gen.make_target(rng, fc, X, off), float)
    w = None if rng.random() < .5 else rng.uniform(.3, 2, n)
    kind = CONTAINERS[rng.integers(len(CONTAINERS))]
    mode = rng.random()
    cv, search = mode < .08, .08 <= mode < .2
    if cv and fc.kind == "binomial":
        cv = False
    l1 = float(rng.choice([0.0, .5, 1.0]))
    params = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), l1_ratio=l1,
                  fit_intercept=bool(rng.random() < .8), max_iter=60, gradient_tol=1e-3)
    if cv:
        params.update(alphas=[.3, .05], cv=2)
    elif search:
        params.update(alpha_search=True, alpha=[.3, .05])
    else:
        params.update(alpha=float(10 ** rng.uniform(-3, 0)))
    cls = GeneralizedLinearRegressorCV if cv else GeneralizedLinearRegressor
    base = Call(cls, params, store(X, kind), y, w, off)
    # ---- the uncorrupted call, and extreme but valid variants of it, are accepted
    variants = [("plain", base)]
    if l1 != 1:
        variants.append(("P2", base.par(P2=psd(rng, p), solver="irls-cd")))
    if l1:
        variants.append(("P1", base.par(P1=np.where(rng.random(p) < .5, 0.0, 2.0))))
    variants.append(("bounds", base.par(lower_bounds=np.full(p, -.1), upper_bounds=np.full(p, -.1)
                                        if rng.random() < .3 else np.full(p, np.inf), solver="irls-cd")))
    if w is not None:
        ww = w.copy()
        ww[rng.integers(n)] = 0.0
        if not cv and (fc.kind != "binomial"):
            variants.append(("zero weight", base.but(w=ww)))
    variants.append(("start", base.par(start_params=rng.normal(size=p + params["fit_intercept"]) * .1)))
    variants.append(("one iteration", base.par(max_iter=1)))
    nm, v = variants[0] if rng.random() < .3 else variants[rng.integers(len(variants))]
    if fc.linkname == "log" and np.average(v.y, weights=v.w) <= 0:
        raise Skip("the log of the average target is the start value")
    try:
        est = v.run()
    except np.linalg.LinAlgError:
        raise Skip("singular")
    except ValueError as e:
        if "infs or NaNs" in str(e) or "No variation" in str(e):
            raise Skip("diverged")
        raise
    mon.event("accepted")
    mon.state("accepted", nm, fc.name, kind, cv, search)
    # ---- one corruption at a time
    allc = corruptions(rng, base, fc, X, y, kind, cv, search)
    groups = sorted({g for g, _, _ in allc})
    for g in groups:
        sel = [c for c in allc if c[0] == g]
        for _, name, call in [sel[k] for k in rng.permutation(len(sel))[:2 if g in ("y", "X", "penalty", "option") else 1]]:
            mon.event("kind:" + g)
            mon.state(g, name, fc.name, kind, cv, search)
            judge(mon, f"{g}: {name}", lambda: call.run(), family=fc.name, container=kind,
                  cv=cv, search=search, l1=l1)
    # ---- prediction
    mon.event("kind:predict")
    fresh = cls(**params)
    which = rng.integers(8)
    if which == 0:
        judge(mon, "predict before fit", lambda: fresh.predict(store(X, kind)))
    elif which == 1:
        judge(mon, "linear_predictor before fit", lambda: fresh.linear_predictor(store(X, kind)))
    elif which == 2:
        judge(mon, "score before fit", lambda: fresh.score(store(X, kind), y))
    elif which == 3:
        judge(mon, "predict with an additional feature",
              lambda: est.predict(store(np.column_stack([X, X[:, 0]]), kind)), container=kind)
    elif which == 4:
        if p > 1:
            judge(mon, "predict with a missing feature",
                  lambda: est.predict(store(X[:, :-1], kind)), container=kind)
    elif which == 5:
        if not search and not cv:
            judge(mon, "alpha without a path", lambda: est.predict(store(X, kind), alpha=.3))
        else:
            judge(mon, "alpha not on the path", lambda: est.predict(store(X, kind), alpha=.123))
    elif which == 6:
        judge(mon, "covariance before fit", lambda: fresh.covariance_matrix(store(X, kind), y))
    else:
        judge(mon, "offset of another length at prediction",
              lambda: est.predict(store(X, kind), offset=np.zeros(n + 1)), container=kind)


INTERNAL = (AssertionError, UnboundLocalError, ZeroDivisionError, RecursionError, SystemError)


def judge(mon, what, f, **detail):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = f()
    except INTERNAL as e:
        mon.violation(f"{what}: refused by an internal error only", error=repr(e)[:200], **detail)
        return
    except Exception as e:
        mon.oracle += 1
        mon.check(len(str(e)) > 0, f"{what}: refused without any message", error=repr(e), **detail)
        return
    if hasattr(r, "coef_"):
        detail["coef"] = np.asarray(r.coef_).ravel()[:6]
    mon.oracle += 1
    mon.violation(f"accepted: {what}", **detail)


if __name__ == "__main__":
    import checks.c19 as mod
    harness.main(mod)
