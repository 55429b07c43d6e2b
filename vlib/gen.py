"""Workload generator: GLM problems spanning families, links, penalties, weights,
offsets, bounds, column kinds and storage formats, with a dense float64 reference
design for the oracle."""
import numpy as np
import scipy.sparse as sp

from .ref import RefFamily, RefLink, default_link, p1_vector, p2_matrix

# (kind, param, link, weight, convex, needs)
MENU = [
    ("normal", None, "identity", 6, True),
    ("normal", None, "log", 1, False),
    ("poisson", None, "log", 6, True),
    ("poisson", None, "identity", 1, True),
    ("gamma", None, "log", 5, True),
    ("gamma", None, "identity", 1, False),
    ("gamma", None, "tweedie2", 1, True),
    ("invgauss", None, "log", 3, False),
    ("tweedie", 1.5, "log", 3, True),
    ("tweedie", 1.2, "log", 2, True),
    ("tweedie", 1.75, "log", 2, True),
    ("tweedie", 2.5, "log", 1, False),
    ("tweedie", 0, "identity", 1, True),
    ("tweedie", 1, "log", 1, True),
    ("tweedie", 2, "log", 1, True),
    ("tweedie", 3, "log", 1, False),
    ("tweedie", 1.5, "identity", 1, False),
    ("binomial", None, "logit", 6, True),
    ("binomial", None, "cloglog", 2, True),
    ("negbin", 1.0, "log", 2, True),
    ("negbin", 0.3, "log", 2, True),
    ("negbin", 2.5, "log", 1, True),
    ("ghs", None, "identity", 1, False),
]


class FamilyChoice:
    def __init__(self, kind, param, link, convex):
        self.kind, self.param, self.linkname, self.convex = kind, param, link, convex
        self.ref = RefFamily(kind, param)
        self.reflink = (RefLink("tweedie", float(link[7:])) if link.startswith("tweedie")
                        else RefLink(link))
        d = default_link(self.ref)
        self.is_default_link = d.name == self.reflink.name

    @property
    def limited(self):
        """The link does not map every linear predictor into the mean's domain, so a
        fit needs a start inside the domain (an intercept or start_params)."""
        return (self.linkname.startswith("tweedie") or self.linkname == "identity"
                and self.kind in ("poisson", "gamma", "tweedie", "invgauss")
                and (self.ref.power or 0) > 0)

    @property
    def name(self):
        return f"{self.kind}{'' if self.param is None else self.param}/{self.linkname}"

    def glum_family(self, rng=None):
        """A family argument for glum (string or instance spelling)."""
        import glum
        k, p = self.kind, self.param
        alts = {
            "normal": ["normal", "gaussian", glum.NormalDistribution()],
            "poisson": ["poisson", glum.PoissonDistribution()],
            "gamma": ["gamma", glum.GammaDistribution()],
            "invgauss": ["inverse.gaussian", glum.InverseGaussianDistribution()],
            "binomial": ["binomial", glum.BinomialDistribution()],
            "ghs": [glum.GeneralizedHyperbolicSecant()],
        }.get(k)
        if k == "tweedie":
            alts = [f"tweedie({p})", f"tweedie ({p})", glum.TweedieDistribution(p)]
            if p == 1.5:
                alts.append("tweedie")
        if k == "negbin":
            alts = [f"negative.binomial({p})", f"negative.binomial ({p})",
                    glum.NegativeBinomialDistribution(p)]
            if p == 1.0:
                alts.append("negative.binomial")
        return alts[0] if rng is None else alts[rng.integers(len(alts))]

    def glum_link(self, rng=None):
        import glum
        n = self.linkname
        alts = {
            "identity": ["identity", glum.IdentityLink()],
            "log": ["log", glum.LogLink()],
            "logit": ["logit", glum.LogitLink()],
            "cloglog": ["cloglog", glum.CloglogLink()],
        }.get(n)
        if alts is None:
            p = float(n[7:])
            alts = [f"tweedie({p})", glum.TweedieLink(p)]
        if self.is_default_link:
            alts = alts + ["auto"]
        return alts[0] if rng is None else alts[rng.integers(len(alts))]

    def ref_for(self, est):
        """Reference family with the power/theta the fitted family really carries
        (glum keeps it in float32); the caller checks it is the requested one."""
        if self.kind == "tweedie":
            return RefFamily("tweedie", float(est.family_instance.power))
        if self.kind == "negbin":
            return RefFamily("negbin", float(est.family_instance.theta))
        return self.ref


def pick_family(rng, convex=None, kinds=None, exclude=()):
    m = [x for x in MENU if (convex is None or x[4] == convex)
         and (kinds is None or x[0] in kinds) and x[0] not in exclude]
    w = np.array([x[3] for x in m], float)
    k, p, l, _, c = m[rng.choice(len(m), p=w / w.sum())]
    return FamilyChoice(k, p, l, c)


class Data:
    """Columns plus target; dense() is the reference design matrix."""

    def __init__(self, cols, n):
        self.cols, self.n = cols, n

    @property
    def has_cat(self):
        return any(c[0] == "cat" for c in self.cols)

    def dense(self, drop_first=False):
        out = []
        for c in self.cols:
            if c[0] == "num":
                out.append(np.asarray(c[2], float)[:, None])
            else:
                oh = np.zeros((self.n, len(c[3])))
                oh[np.arange(self.n), c[2]] = 1.0
                out.append(oh[:, 1:] if drop_first else oh)
        return np.hstack(out) if out else np.zeros((self.n, 0))

    def take(self, idx):
        cols = []
        for c in self.cols:
            if c[0] == "num":
                cols.append(("num", c[1], np.asarray(c[2])[idx]))
            else:
                cols.append(("cat", c[1], np.asarray(c[2])[idx], c[3]))
        return Data(cols, len(np.arange(self.n)[idx]))

    def store(self, kind, drop_first=False):
        import tabmat as tm
        if kind in ("df", "df_cat"):
            import pandas as pd
            return pd.DataFrame({
                c[1]: (c[2] if c[0] == "num"
                       else pd.Categorical.from_codes(c[2], categories=list(c[3])))
                for c in self.cols})
        if kind in ("polars", "polars_cat"):
            import polars as pl
            d = {}
            for c in self.cols:
                if c[0] == "num":
                    d[c[1]] = np.asarray(c[2])
                else:
                    d[c[1]] = pl.Series([c[3][i] for i in c[2]],
                                        dtype=pl.Enum(list(c[3])))
            return pl.DataFrame(d)
        if kind == "tm_cat":
            mats, idx, k = [], [], 0
            for c in self.cols:
                if c[0] == "num":
                    mats.append(tm.DenseMatrix(np.asarray(c[2], float)[:, None]))
                else:
                    import pandas as pd
                    mats.append(tm.CategoricalMatrix(
                        pd.Categorical.from_codes(c[2], categories=list(c[3])),
                        drop_first=drop_first))
                idx.append(np.arange(k, k + mats[-1].shape[1]))
                k += mats[-1].shape[1]
            return tm.SplitMatrix(mats, idx)
        X = self.dense(drop_first)
        return store_dense(X, kind)


STORES = ["c", "f", "strided", "list", "csc", "csr", "coo", "csc64",
          "tm_dense", "tm_dense_f", "tm_sparse", "tm_split", "tm_std", "df", "polars"]


def store_dense(X, kind):
    import tabmat as tm
    X = np.asarray(X, float)
    if kind == "c":
        return np.ascontiguousarray(X)
    if kind == "f":
        return np.asfortranarray(X)
    if kind == "f32":
        return np.asfortranarray(X.astype(np.float32))
    if kind == "f32c":
        return np.ascontiguousarray(X.astype(np.float32))
    if kind == "strided":
        big = np.full((2 * X.shape[0], X.shape[1] + 1), 7.5)
        big[::2, :-1] = X
        return big[::2, :-1]
    if kind == "list":
        return X.tolist()
    if kind == "csc":
        return sp.csc_matrix(X)
    if kind == "csc64":
        M = sp.csc_matrix(X)
        M.indices = M.indices.astype(np.int64)
        M.indptr = M.indptr.astype(np.int64)
        return M
    if kind == "csr":
        return sp.csr_matrix(X)
    if kind == "coo":
        return sp.coo_matrix(X)
    if kind == "csc_array":
        return sp.csc_array(X)
    if kind == "tm_dense":
        return tm.DenseMatrix(np.ascontiguousarray(X))
    if kind == "tm_dense_f":
        return tm.DenseMatrix(np.asfortranarray(X))
    if kind == "tm_sparse":
        return tm.SparseMatrix(sp.csc_matrix(X))
    if kind in ("tm_split", "tm_std"):
        # alternate columns dense / sparse
        idx = [np.arange(0, X.shape[1], 2), np.arange(1, X.shape[1], 2)]
        mats = [tm.DenseMatrix(np.asfortranarray(X[:, idx[0]]))]
        if len(idx[1]) == 0:
            return mats[0]
        mats.append(tm.SparseMatrix(sp.csc_matrix(X[:, idx[1]])))
        return tm.SplitMatrix(mats, [idx[0], idx[1]])
    if kind == "df":
        import pandas as pd
        return pd.DataFrame(X, columns=[f"x{i}" for i in range(X.shape[1])])
    if kind == "polars":
        import polars as pl
        return pl.DataFrame({f"x{i}": X[:, i] for i in range(X.shape[1])})
    raise ValueError(kind)


def make_columns(rng, n, p, cats=0, positive=False, const=False, spread=1.0, names=None):
    cols = []
    kinds = ["normal", "uniform", "sparse", "binary", "count", "shifted", "corr"]
    base = rng.normal(size=n)
    for j in range(p):
        k = kinds[rng.integers(len(kinds))]
        if k == "normal":
            v = rng.normal(size=n)
        elif k == "uniform":
            v = rng.uniform(-2, 2, size=n)
        elif k == "sparse":
            v = np.where(rng.random(n) < 0.3, rng.normal(size=n) + 1, 0.0)
        elif k == "binary":
            v = (rng.random(n) < rng.uniform(0.2, 0.8)).astype(float)
        elif k == "count":
            v = rng.poisson(1.5, size=n).astype(float)
        elif k == "shifted":
            v = rng.normal(size=n) + rng.uniform(-5, 5)
        else:
            v = 0.7 * base + 0.7 * rng.normal(size=n)
        v = v * 10 ** (spread * rng.uniform(-1, 1))
        if positive:
            v = np.abs(v)
        if np.ptp(v) == 0:
            v[0] += 1.0
        cols.append(("num", f"x{j}" if names is None else names[j], v))
    if const:
        cols.insert(rng.integers(len(cols) + 1), ("num", "konst", np.full(n, 2.5)))
    for j in range(cats):
        nl = int(rng.integers(2, 6))
        levels = [f"{'lvl'[:1 + j]}{i}" for i in rng.permutation(nl)]
        codes = rng.integers(0, nl, size=n)
        if n >= nl:
            codes[rng.permutation(n)[:nl]] = np.arange(nl)
        cols.insert(int(rng.integers(len(cols) + 1)), ("cat", f"c{j}", codes, tuple(levels)))
    return Data(cols, n)


def make_target(rng, fc, X, off, sd=0.6, positive=False):
    """Draw y from the model around a random linear predictor on X (+ off)."""
    n, p = X.shape
    s = X.std(0)
    b = rng.normal(size=p) * (rng.random(p) < 0.7)
    b = np.where(s > 0, b / np.where(s > 0, s, 1), 0.0)
    eta = (X - X.mean(0)) @ b
    if eta.std() > 0:
        eta = eta * (sd / eta.std())
    o = np.zeros(n) if off is None else off
    k, l = fc.kind, fc.linkname
    if l in ("log",):
        mu = np.exp(np.clip(eta + o + rng.uniform(-0.5, 1.0), -6, 5))
    elif l == "logit":
        mu = 1 / (1 + np.exp(-(eta + o + rng.uniform(-1, 1))))
    elif l == "cloglog":
        mu = 1 - np.exp(-np.exp(np.clip(eta + o - 0.4, -5, 1.5)))
    elif l == "identity" and k in ("poisson", "gamma", "tweedie") and fc.ref.power > 0:
        mu = 0.5 + 4.0 * np.exp(0.4 * np.tanh(eta)) + np.abs(o)
    elif l.startswith("tweedie"):
        mu = 1.0 / (1.0 + 0.5 * np.tanh(eta) + np.abs(o))
    else:
        mu = eta + o + rng.uniform(-2, 2)
    pw = fc.ref.power
    if k == "normal" and l == "log":  # the log link needs a positive mean response
        y = mu + 0.2 * mu.mean() * rng.normal(size=n)
    elif k == "normal" or pw == 0:
        y = mu + rng.normal(size=n) * rng.choice([0.1, 1.0, 3.0])
    elif k == "poisson" or pw == 1:
        y = rng.poisson(mu).astype(float)
        if y.sum() == 0:
            y[0] = 1.0
    elif k == "gamma" or pw == 2:
        a = rng.choice([1.0, 3.0, 10.0])
        y = rng.gamma(a, mu / a) + 1e-3
    elif k == "invgauss" or pw == 3 or (pw is not None and pw > 2):
        y = rng.wald(mu, mu * 2.0 + 1.0) + 1e-3
    elif k == "tweedie":
        N = rng.poisson(mu * 0.8 + 0.2)
        y = np.where(N > 0, rng.gamma(np.maximum(N, 1) * 1.0, 1.0), 0.0)
        if y.sum() == 0:
            y[0] = 1.0
    elif k == "binomial":
        if rng.random() < 0.25:
            m = rng.integers(1, 8, size=n)
            y = rng.binomial(m, mu) / m
        else:
            y = (rng.random(n) < mu).astype(float)
        if y.min() == y.max():
            y[0] = 1 - y[0]
    elif k == "negbin":
        r = 1 / fc.param
        y = rng.poisson(rng.gamma(r, mu / r)).astype(float)
        if y.sum() == 0:
            y[0] = 1.0
    elif k == "ghs":
        y = mu + rng.standard_t(5, size=n) * 0.7
    else:
        raise ValueError(k)
    return y


def make_weights(rng, n, kinds=("none", "none", "unif", "int", "big", "tiny", "zeros")):
    k = kinds[rng.integers(len(kinds))]
    if k == "none":
        return None, k
    if k == "unif":
        return rng.uniform(0.2, 3, n), k
    if k == "int":
        return rng.integers(1, 5, n).astype(float), k
    if k == "big":
        return rng.uniform(0.2, 3, n) * 1e5, k
    if k == "tiny":
        return rng.uniform(0.2, 3, n) * 1e-4, k
    if k == "zeros":
        w = rng.uniform(0.2, 3, n)
        w[rng.random(n) < 0.2] = 0.0
        if (w > 0).sum() < max(3, n // 2):
            w[:] = np.maximum(w, 0.5)
        return w, k
    raise ValueError(k)


def make_offset(rng, n, fc, p_none=0.5):
    if rng.random() < p_none:
        return None
    if fc.linkname == "identity" and fc.kind in ("poisson", "gamma", "tweedie") \
            or fc.linkname.startswith("tweedie"):
        return rng.uniform(0.0, 0.2, n)
    return rng.normal(size=n) * 0.3 + rng.uniform(-0.5, 0.5)


def make_penalty(rng, p, l1=None, alpha=None):
    """dict(alpha, l1_ratio, P1, P2) in glum's terms for p expanded columns."""
    out = {}
    out["alpha"] = float(alpha if alpha is not None
                         else 10 ** rng.uniform(-4, 0))
    out["l1_ratio"] = float(l1 if l1 is not None else rng.choice([0.0, 0.0, 0.3, 0.5, 0.9, 1.0]))
    r = rng.random()
    if r < 0.25 and out["l1_ratio"] > 0:
        P1 = rng.uniform(0.2, 2, p)
        if p > 1:
            P1[rng.integers(p)] = 0.0
        out["P1"] = P1
    r = rng.random()
    if r < 0.12:
        out["P2"] = rng.uniform(0.2, 2, p)
    elif r < 0.30:
        A = rng.normal(size=(p, p))
        M = A @ A.T / p + 0.1 * np.eye(p)
        if rng.random() < 0.3:  # asymmetric spelling of the same quadratic form
            S = rng.normal(size=(p, p))
            M = M + 0.5 * (S - S.T)
        if rng.random() < 0.5:
            out["P2"] = M
        else:
            M = np.triu(np.tril(M, 1), -1) * 0.3 + np.diag(np.abs(np.diag(M)) + 1.0)
            r = rng.random()
            if r < 0.4:
                M = 0.5 * (M + M.T)
            elif p > 1 and r < 0.7:  # few stored entries, not on the diagonal only
                c = np.diag(M) * 0.5
                i, j = rng.choice(p, 2, replace=False)
                M = np.zeros((p, p))
                M[i, i], M[j, j], M[i, j] = c[i], c[j], rng.uniform(-1, 1) * np.sqrt(c[i] * c[j])
                M[j, i] = M[i, j] if rng.random() < .7 else 0.0
            fmt = ("csc", "csc", "csr", "coo")[rng.integers(4)]
            kind = getattr(sp, fmt + ("_array" if rng.random() < .3 else "_matrix"))
            out["P2"] = kind(M)
    return out


class Problem:
    """One GLM fit: data, target, weights, offset, family and penalty."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def ref_penalty(self, p):
        a = self.pen.get("alpha")
        return (0.0 if a is None else a, self.pen.get("l1_ratio", 0.0),
                p1_vector(self.pen.get("P1"), p), p2_matrix(self.pen.get("P2"), p))

    def wvec(self):
        return np.ones(self.data.n) if self.w is None else np.asarray(self.w, float)


def make_problem(rng, n=None, p=None, cats=None, convex=None, kinds=None, exclude=(),
                 penalty=True, l1=None, alpha=None, offset=True, weights=True,
                 spread=1.0, const=False, fc=None, drop_first=False, sd=0.6):
    fc = fc or pick_family(rng, convex, kinds, exclude)
    n = int(n or rng.choice([12, 25, 40, 60, 120, 250], p=[.08, .2, .25, .25, .15, .07]))
    p = int(p or rng.integers(1, 7))
    cats = int(rng.random() < 0.25) * int(rng.integers(1, 3)) if cats is None else cats
    positive = fc.linkname == "identity" and fc.kind in ("poisson", "gamma", "tweedie")
    data = make_columns(rng, n, p, cats, positive=positive, const=const, spread=spread)
    X = data.dense(drop_first)
    off = make_offset(rng, n, fc) if offset else None
    y = make_target(rng, fc, X, off, sd=sd)
    w, wk = make_weights(rng, n) if weights else (None, "none")
    if w is not None and fc.kind in ("poisson", "tweedie", "negbin", "binomial"):
        if (w * (y > 0)).sum() == 0 or (fc.kind == "binomial" and (w * (y < 1)).sum() == 0):
            w, wk = None, "none"
    pen = make_penalty(rng, X.shape[1], l1, alpha) if penalty else {"alpha": 0.0}
    return Problem(data=data, X=X, y=y, w=w, wkind=wk, off=off, fc=fc, pen=pen,
                   drop_first=drop_first)


def as_weight_arg(rng, w, n):
    """Different spellings of the same weights."""
    if w is None:
        r = rng.random()
        return None if r < 0.7 else (np.ones(n) if r < 0.85 else 1)
    import pandas as pd
    r = rng.random()
    if r < 0.6:
        return w
    if r < 0.7:
        return list(w)
    if r < 0.85:
        return pd.Series(w, index=np.arange(n)[::-1])
    return np.repeat(w, 2)[::2]


def as_y_arg(rng, y):
    import pandas as pd
    r = rng.random()
    if r < 0.6:
        return y
    if r < 0.7:
        return list(y)
    if r < 0.8:
        return pd.Series(y, index=np.arange(len(y))[::-1])
    if np.all(y == np.round(y)) and r < 0.95:
        return y.astype(np.int64)
    return np.repeat(y, 2)[::2]


def fit(est, X, y, w, off, **kw):
    """Fit, returning the list of warnings raised."""
    import warnings as W
    with W.catch_warnings(record=True) as rec:
        W.simplefilter("always")
        try:
            est.fit(X, y, sample_weight=w, offset=off, **kw)
        except np.linalg.LinAlgError:
            if semidefinite(getattr(est, "P2", None)):
                from .harness import Skip
                raise Skip("singular Hessian under a semidefinite P2, and said so") from None
            raise
    return rec


def semidefinite(P2):
    """A P2 that leaves a direction unpenalised."""
    if P2 is None or isinstance(P2, str):
        return False
    P = P2.toarray() if sp.issparse(P2) else np.asarray(P2, float)
    if P.ndim == 1:
        return bool(P.min() < 1e-10 * max(P.max(), 1e-300))
    P = (P + P.T) / 2
    e = np.linalg.eigvalsh(P)
    return bool(e[0] < 1e-10 * max(e[-1], 1e-300))


def converged(rec):
    from sklearn.exceptions import ConvergenceWarning
    bad = [str(r.message) for r in rec if issubclass(r.category, ConvergenceWarning)
           or "lbfgs failed" in str(r.message) or "Clipping" in str(r.message)]
    return not bad
