"""C17: categorical columns behave exactly like their documented dummy encoding."""
import pickle
import warnings

import numpy as np

from vlib import gen, harness, meta
from vlib.harness import Skip

PROPERTY = "C17"
RULE = ("random pandas and polars frames with 1-3 categorical columns (string, integer, boolean and "
        "float labels, ordered and unordered, unused and single levels, rare and missing values) "
        "between numeric columns, fitted next to the explicit dummy design; non-trivial = "
        "coefficients, names or predictions compared with that design; distinct = container, level "
        "types and counts, missing-value policy, drop_first, name format, penalty layout, solver; "
        "probes = kind of new frame predicted on")
MINIMUM = {"quick": {"oracle": 20000, "states": 900, "fit": 1000, "refused:missing": 30,
                     "unseen": 600, "probe:reordered": 500, "probe:subset": 500,
                     "probe:superset": 300, "probe:plain": 400, "probe:single-row": 500,
                     "probe:missing": 250, "probe:other-backend": 300, "covariance": 60},
           "thorough": {"oracle": 200000, "states": 5000}}
FORMATS = ["{name}[{category}]", "{name}[{category}]", "{name}__{category}", "{name}[T.{category}]",
           "{category}", "{category}@{name}"]
POOL = {"str": list("abcdefgh"),
        "odd": ["", " ", "a[b]", "ä", "1", "01", "None", "x:y"],
        "zfirst": list("hgfedcba"),
        "int": [3, 1, 2, 10, -4, 7, 100, 0],
        "float": [.5, 2.0, -1.25, 3.0, 10.0, 0.0, 7.5, 1e6],
        "bool": [True, False]}


def plan(tier, seed):
    n = 4000 if tier == "quick" else 30000
    return [{"seed": seed, "i": i} for i in range(n)]


class Cat:
    """One categorical column: labels (in category order), codes (-1 = missing)."""

    def __init__(self, rng, n, allow_missing, pandas, name):
        kinds = ["str", "str", "zfirst", "odd"] + (["int", "float", "bool"] if pandas else [])
        self.kind = kinds[rng.integers(len(kinds))]
        pool = POOL[self.kind]
        L = int(min(len(pool), rng.choice([1, 2, 3, 4, 5, 8], p=[.04, .2, .2, .2, .2, .16])))
        self.levels = [pool[k] for k in (rng.permutation(len(pool))[:L] if rng.random() < .5
                                         else np.arange(L))]
        self.name, self.ordered = name, bool(rng.random() < .3)
        used = np.arange(L)
        if L > 2 and rng.random() < .25:  # unused category
            used = np.delete(used, rng.integers(L))
        pr = rng.dirichlet(np.full(len(used), 2.0))
        self.codes = rng.choice(used, n, p=pr)
        k = min(len(used), n)
        self.codes[rng.permutation(n)[:k]] = used[:k]
        self.missing = bool(allow_missing and rng.random() < .7)
        if self.missing:
            idx = rng.permutation(n)[:max(1, int(n * rng.choice([.02, .15, .4])))]
            self.codes[idx] = -1
            # polars/plain encodings need every used level to survive: not required here

    def take(self, idx):
        c = object.__new__(Cat)
        c.__dict__.update(self.__dict__)
        c.codes = self.codes[idx]
        return c

    def labels(self):
        return [None if k < 0 else self.levels[k] for k in self.codes]

    def pandas(self, levels=None, ordered=None):
        import pandas as pd
        lv = self.levels if levels is None else levels
        pos = {self._key(v): i for i, v in enumerate(lv)}
        codes = np.array([-1 if k < 0 else pos[self._key(self.levels[k])] for k in self.codes])
        return pd.Categorical.from_codes(codes, categories=pd.Index(lv, dtype=self._dtype()),
                                         ordered=self.ordered if ordered is None else ordered)

    @staticmethod
    def _key(v):
        return (type(v).__name__, v)

    def _dtype(self):
        return {"int": "int64", "float": "float64", "bool": "bool"}.get(self.kind)

    def polars(self, levels=None):
        import polars as pl
        return pl.Series(self.labels(), dtype=pl.Enum(self.levels if levels is None else levels))

    def dummies(self, drop_first, miss_level):
        """Documented encoding: a column per level in category order, missing last."""
        m = [(self.codes == k).astype(float) for k in range(len(self.levels))]
        if miss_level:
            m.append((self.codes < 0).astype(float))
        return m[1:] if drop_first else m


class Frame:
    def __init__(self, order, num, cats, n):
        self.order, self.num, self.cats, self.n = order, num, cats, n

    def take(self, idx):
        return Frame(self.order, {k: v[idx] for k, v in self.num.items()},
                     {k: c.take(idx) for k, c in self.cats.items()}, len(idx))

    def pandas(self, cat=lambda c: c.pandas(), index=None):
        import pandas as pd
        return pd.DataFrame({k: (self.num[k] if k in self.num else cat(self.cats[k]))
                             for k in self.order}, index=index)

    def polars(self, cat=lambda c: c.polars()):
        import polars as pl
        return pl.DataFrame({k: (self.num[k] if k in self.num else cat(self.cats[k]))
                             for k in self.order})

    def design(self, drop_first, miss):
        """miss: {name: has its own missing level}."""
        cols = []
        for k in self.order:
            cols += [self.num[k].astype(float)] if k in self.num else \
                self.cats[k].dummies(drop_first, miss[k])
        return np.column_stack(cols) if cols else np.zeros((self.n, 0))

    def has_missing(self):
        return {k: bool((c.codes < 0).any()) for k, c in self.cats.items()}


def label_str(v):
    return str(v)


def names(fr, fmt, drop_first, miss, miss_name):
    f, t = [], []
    for k in fr.order:
        if k in fr.num:
            f.append(k)
            t.append(k)
            continue
        lv = [label_str(v) for v in fr.cats[k].levels] + ([miss_name] if miss[k] else [])
        lv = lv[1:] if drop_first else lv
        f += [fmt.format(name=k, category=v) for v in lv]
        t += [k] * len(lv)
    return f, t


def expect_raise(mon, what, f, sig, **detail):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = f()
    except Exception:
        mon.oracle += 1
        return True
    return mon.check(False, what, sig=sig, returned=np.asarray(r, dtype=object).ravel()[:5].tolist(),
                     **detail)


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor
    rng = harness.rng_for("C17", case["seed"], case["i"])
    backend = ["pandas", "polars"][int(rng.random() < .3)]
    method = ["fail", "zero", "convert", "convert"][rng.integers(4)]
    miss_name = ["(MISSING)", "(MISSING)", "nan", "zz", "Ω"][rng.integers(5)]
    fmt = FORMATS[rng.integers(len(FORMATS))]
    drop_first = bool(rng.random() < .4)
    n = int(rng.choice([15, 30, 60, 120]))
    ncat, nnum = int(rng.integers(1, 4)), int(rng.integers(0, 4))
    num = {}
    for j in range(nnum):
        v = rng.normal(size=n) * rng.choice([.3, 1, 5])
        r = rng.random()
        if r < .2:
            v = rng.integers(-2, 3, n)
        elif r < .3:
            v = (rng.random(n) < .5)
        elif r < .4:
            v = v * (rng.random(n) < .08)
        num[f"x{j}"] = v
    bad_missing = method == "fail" and rng.random() < .12
    cnames = ["c", "g", "fac 1", "x[1]", "Z"]
    cats = {}
    for nm in rng.permutation(cnames)[:ncat]:
        nm = str(nm)
        cats[nm] = Cat(rng, n, method != "fail" or bad_missing, backend == "pandas", nm)
    order = [str(k) for k in rng.permutation([*num, *cats])]
    fr = Frame(order, num, cats, n)
    hm = fr.has_missing()
    if any(miss_name in map(str, c.levels) for c in cats.values()):
        raise Skip("missing name is a level")
    miss = {k: hm[k] and method == "convert" for k in cats}
    D = fr.design(drop_first, miss)
    p = D.shape[1]
    if p == 0:
        raise Skip("no column left")
    fc = gen.pick_family(rng, convex=True)
    off = gen.make_offset(rng, n, fc)
    y = gen.make_target(rng, fc, D, off, sd=.5)
    w = None if rng.random() < .5 else rng.uniform(.3, 2, n)
    if w is not None and fc.kind == "binomial" and not 0 < (w * y).sum() < w.sum():
        w = None
    # penalty: per design column, or per frame column
    pen = gen.make_penalty(rng, p, alpha=10 ** rng.uniform(-3, -.3))
    layout = "design"
    penF = dict(pen)
    lengths = [1 if k in num else fr.cats[k].levels.__len__() + miss[k] - drop_first for k in order]
    # vectors of the length of the frame are per frame column, whatever the design's length
    ambiguous = len(order) == p and set(lengths) != {1}
    if ambiguous and np.ndim(pen.get("P2")) >= 1:
        pen.pop("P2")
        penF.pop("P2")
    if rng.random() < .5 and len(order) != p or ambiguous:
        layout = "frame"
        if "P1" in pen or pen["l1_ratio"] > 0 and rng.random() < .5:
            v = rng.uniform(.3, 2, len(order))
            penF["P1"] = v if rng.random() < .7 else v.tolist()
            pen["P1"] = np.repeat(v, lengths)
        if rng.random() < .6:
            v = rng.uniform(.3, 2, len(order))
            penF["P2"] = v if rng.random() < .7 else v.tolist()
            pen["P2"] = np.repeat(v, lengths)
    L1 = pen["l1_ratio"] > 0
    solver = "irls-cd" if L1 or rng.random() < .4 else "irls-ls"
    fi = bool(rng.random() < .8) or fc.limited
    scale = bool(fi and rng.random() < .15)
    kw = dict(fit_intercept=fi, max_iter=300, solver=solver, gradient_tol=1e-9,
              scale_predictors=scale, family=fc.glum_family(rng), link=fc.glum_link(rng),
              drop_first=drop_first)
    sig = (backend, method, fmt, drop_first, tuple(sorted((c.kind, len(c.levels), c.missing)
                                                          for c in cats.values())),
           layout, np.ndim(pen.get("P2")), "P1" in pen, solver, scale, fi)
    est = GeneralizedLinearRegressor(cat_missing_method=method, cat_missing_name=miss_name,
                                     categorical_format=fmt, **kw, **penF)
    native = fr.pandas(index=rng.permutation(n) if rng.random() < .3 else None) \
        if backend == "pandas" else fr.polars()
    if method == "fail" and any(hm.values()):
        mon.event("refused:missing")
        expect_raise(mon, "missing values accepted although cat_missing_method='fail'",
                     lambda: est.fit(native, y, sample_weight=w, offset=off).coef_, sig)
        return
    kD = dict(kw)
    kD.pop("drop_first")
    ref = GeneralizedLinearRegressor(**kD, **pen)
    recR = meta.guarded_fit(ref, D, y, w, off, fc)
    base = meta.BaseFit(ref, recR, fc, D, y, w, off, pen, fi, scale, 1e-9)
    mar = base.margin(solver)
    before = native.copy() if backend == "pandas" else native.clone()
    recE = meta.guarded_fit(est, native, y, w, off, fc)
    same = before.equals(native)
    mon.check(bool(same), "fit changed the caller's frame", sig=sig)
    if not gen.converged(recE):
        mon.event("warned")
        return
    mon.event("fit")
    mon.state(*sig)
    mon.sample({"backend": backend, "method": method, "levels": [c.levels for c in cats.values()],
                "design": p})
    # ---- the model
    fn, tn = names(fr, fmt, drop_first, miss, miss_name)
    mon.check(list(est.feature_names_) == fn, "feature_names_ differ from the documented format",
              got=list(est.feature_names_), want=fn, sig=sig)
    mon.check(list(est.term_names_) == tn, "term_names_ differ from the columns of the frame",
              got=list(est.term_names_), want=tn, sig=sig)
    mon.check(est.n_features_in_ == p, "n_features_in_ differs from the dummy design",
              got=est.n_features_in_, want=p, sig=sig)
    if not meta.compare(mon, "model on the frame differs from the model on the dummy design", est,
                        ref, mar, sig=sig, names=fn):
        return
    b, b0 = np.asarray(est.coef_, float), float(est.intercept_)
    inv = base.link.inverse

    def predict_check(X, f2, what, offset=None, model=est):
        Dn = f2.design(drop_first, miss)
        eta = Dn @ b + b0 + (0 if offset is None else offset)
        tol = 1e-11 * (np.abs(Dn) @ np.abs(b) + abs(b0) + 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = np.asarray(model.linear_predictor(X, offset=offset), float)
        ok = got.shape == eta.shape and bool(np.all(np.abs(got - eta) <= tol))
        mon.check(ok, f"linear predictor on {what} is not the one of the dummy encoding",
                  got=got[:8], want=eta[:8], sig=sig,
                  levels={k: c.levels for k, c in cats.items()})
        if ok:
            mu = np.asarray(model.predict(X, offset=offset), float)
            if fc.reflink.name != "cloglog":
                mon.close(mu, inv(eta), f"prediction on {what} is not the one of the dummy encoding",
                          rtol=1e-9, atol=1e-12, sig=sig)
        mon.event("probe:" + what)

    predict_check(native, fr, "training frame")
    # ---- new frames
    m = int(rng.integers(1, 12))
    new = fr.take(rng.integers(0, n, m))
    newoff = rng.normal(size=m) if rng.random() < .3 else None
    # rows without missing values unless the level exists or the policy is "zero"
    permuted = {k: [c.levels[j] for j in rng.permutation(len(c.levels))] for k, c in cats.items()}
    if backend == "pandas":
        predict_check(new.pandas(lambda c: c.pandas(permuted[c.name], ordered=bool(rng.random() < .5)),
                                 index=np.arange(m)[::-1]), new, "reordered", newoff)
    else:
        predict_check(new.polars(lambda c: c.polars(permuted[c.name])), new, "reordered", newoff)

    def subset(c, nf=new):
        used = [c.levels[k] for k in sorted(set(c.codes.tolist()) - {-1})]
        if not used:
            used = c.levels[-1:]
        return used[::-1] if rng.random() < .5 else used
    predict_check(new.pandas(lambda c: c.pandas(subset(c))) if backend == "pandas"
                  else new.polars(lambda c: c.polars(subset(c))), new, "subset", newoff)
    if all(c.kind not in ("bool",) for c in cats.values()):
        extra = {k: ([POOL[c.kind][-1] if POOL[c.kind][-1] not in c.levels else None, ][0])
                 for k, c in cats.items()}

        def sup(c):
            e = extra[c.name]
            return c.levels if e is None else [e] + c.levels
        if any(e is not None for e in extra.values()):
            predict_check(new.pandas(lambda c: c.pandas(sup(c))) if backend == "pandas"
                          else new.polars(lambda c: c.polars(sup(c))), new, "superset", newoff)
    # plain (non-categorical) columns
    import pandas as pd
    import polars as pl
    if backend == "pandas":
        if all(c.kind in ("str", "zfirst", "odd") or not (c.codes < 0).any()
               for c in new.cats.values()):
            def plain(c):
                lab = c.labels()
                if c.kind in ("int", "float", "bool"):
                    return np.array(lab)
                return pd.Series(lab, dtype=object) if rng.random() < .5 else pd.Series(lab, dtype="str")
            predict_check(new.pandas(plain), new, "plain", newoff)
    else:
        predict_check(new.polars(lambda c: pl.Series(c.labels(), dtype=pl.String)), new, "plain",
                      newoff)
        predict_check(new.polars(lambda c: pl.Series(c.labels(), dtype=pl.Categorical)), new,
                      "polars-categorical", newoff)
    one = fr.take(np.array([int(rng.integers(n))]))
    predict_check(one.pandas(subset and (lambda c: c.pandas(subset(c)))) if backend == "pandas"
                  else one.polars(), one, "single-row")
    if all(c.kind in ("str", "zfirst", "odd") for c in cats.values()):
        predict_check(new.polars() if backend == "pandas" else new.pandas(), new, "other-backend",
                      newoff)
    clone = pickle.loads(pickle.dumps(est))
    predict_check(new.pandas() if backend == "pandas" else new.polars(), new, "pickled model",
                  newoff, clone)
    # ---- missing values in new data
    k = str(rng.permutation(sorted(cats))[0])
    mf = fr.take(np.r_[rng.integers(0, n, 4)])
    for c in mf.cats.values():  # no missing values elsewhere
        if not (miss[c.name] or method == "zero"):
            assert (c.codes >= 0).all()
    mf.cats[k].codes = mf.cats[k].codes.copy()
    mf.cats[k].codes[int(rng.integers(4))] = -1
    X = mf.pandas() if backend == "pandas" else mf.polars()
    if method == "zero" or miss[k]:
        predict_check(X, mf, "missing")
        if backend == "pandas":
            predict_check(mf.pandas(lambda c: c.pandas(subset(c, mf))), mf, "missing")
    else:
        mon.event("missing refused")
        expect_raise(mon, "predicting a missing value without a level for it is accepted",
                     lambda: est.predict(X), sig, column=k)
    # ---- unseen labels
    uf = fr.take(rng.integers(0, n, 4))
    c = uf.cats[k]
    unseen = {"int": 55, "float": 55.5, "bool": None}.get(c.kind, "unseen")
    if unseen is not None:
        c2 = c.take(np.arange(4))
        c2.levels = c.levels + [unseen]
        c2.codes = c2.codes.copy()
        c2.codes[int(rng.integers(4))] = len(c.levels)
        uf.cats[k] = c2
        mon.event("unseen")
        X = uf.pandas() if backend == "pandas" else uf.polars()
        expect_raise(mon, "an unseen category is accepted at prediction",
                     lambda: est.predict(X), sig, column=k)
        if c.kind in ("str", "zfirst", "odd"):
            X = uf.pandas(lambda c: np.array(c.labels(), dtype=object)) if backend == "pandas" \
                else uf.polars(lambda c: pl.Series(c.labels(), dtype=pl.String))
            expect_raise(mon, "an unseen category is accepted at prediction",
                         lambda: est.predict(X), sig, column=k)
        if miss[k]:
            pass
    # ---- inference and score on a realigned frame
    Z = np.column_stack([np.ones(n), D]) if fi else D
    sv = np.linalg.svd(Z / np.maximum(np.abs(Z).max(0), 1e-300), compute_uv=False)
    full = Z.shape[1] < n and sv[-1] > 1e-4 * sv[0] and np.abs(base.eta).max() < 15
    if full and rng.random() < .7 and not L1 and fc.kind != "binomial":
        perm = rng.permutation(n)
        f2 = fr.take(perm)
        X2 = f2.pandas(lambda c: c.pandas(permuted[c.name])) if backend == "pandas" \
            else f2.polars(lambda c: c.polars(permuted[c.name]))
        wp, op = (None if v is None else v[perm] for v in (w, off))
        mon.event("covariance")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.close(est.score(X2, y[perm], sample_weight=wp, offset=op),
                      est.score(native, y, sample_weight=w, offset=off),
                      "score on a realigned frame differs", rtol=1e-8, atol=1e-9, sig=sig)
            try:
                V1 = est.covariance_matrix(native, y, sample_weight=w, offset=off)
            except Exception as e:
                expect_raise(mon, "covariance on the realigned frame accepted, refused on the frame",
                             lambda: est.covariance_matrix(X2, y[perm], sample_weight=wp,
                                                           offset=op), sig, error=repr(e))
                return
            V2 = est.covariance_matrix(X2, y[perm], sample_weight=wp, offset=op)
        s = np.sqrt(np.abs(np.outer(np.diag(V1), np.diag(V1))))
        mon.check(V1.shape == V2.shape and bool(np.all(np.abs(V1 - V2) <= 1e-6 * (s + s.max() * 1e-3))),
                  "covariance on a realigned frame differs", sig=sig, a=V1, b=V2)


if __name__ == "__main__":
    import checks.c17 as mod
    harness.main(mod)
