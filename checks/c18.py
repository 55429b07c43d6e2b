"""C18: formula models equal the explicitly built design."""
import itertools
import pickle
import warnings

import numpy as np

from vlib import gen, harness, meta
from vlib.harness import Skip

PROPERTY = "C18"
RULE = ("random formulas (numeric, transformed, stateful, categorical and interaction terms, one- and "
        "two-sided, with and without intercept, context functions) over random pandas/polars frames, "
        "fitted next to the design an independent evaluator builds from the terms; non-trivial = "
        "coefficients, columns, predictions or refusals compared; distinct = terms (factor kinds), "
        "backend, sides, intercept, drop_first, missing policy, name formats, context kind")
MINIMUM = {"quick": {"oracle": 12000, "states": 900, "fit": 1000, "two-sided": 300, "context": 300,
                     "context refused": 150, "span": 250, "probe:new rows": 700,
                     "probe:permuted columns": 700, "probe:reordered categories": 400,
                     "probe:single row": 700, "unseen refused": 250, "contradiction": 250,
                     "inference": 70, "cv": 25},
           "thorough": {"oracle": 100000, "states": 5000}}


def plan(tier, seed):
    n = 4000 if tier == "quick" else 22000
    return [{"seed": seed, "i": i} for i in range(n)]


# ------------------------------------------------------------- independent evaluator
def spline_state(fun, train, kw):
    st = {}
    fun(train, _state=st, **kw)
    return lambda v: fun(v, _state=dict(st), **kw)


def multi(res):
    """formulaic's multi-column transforms return a mapping index -> column."""
    if hasattr(res, "__wrapped__"):
        res = res.__wrapped__
    return {str(k): np.asarray(v, float) for k, v in dict(res).items()} if hasattr(res, "items") \
        else {str(j + 1): np.asarray(res, float)[:, j] for j in range(np.asarray(res).shape[1])}


class Factor:
    """text in the formula, name in the column names, columns(frame) -> {idx or None: values}."""

    def __init__(self, text, kind, fun, name=None, levels=None, var=None, ctx=None):
        self.text, self.kind, self.fun, self.levels, self.var = text, kind, fun, levels, var
        self.name = name or text
        self.ctx = ctx


def factors(rng, data, ctxmode, miss, miss_name):
    """Pool of factors; data = dict of raw training columns."""
    from formulaic.transforms import basis_spline, poly
    F = []
    x, z = data["x"], data["z"]
    mz, mx = z.mean(), x.mean()
    sx = x.std(ddof=1)
    for t, f, name in [("x", lambda d: d["x"], None), ("z", lambda d: d["z"], None),
                       ("z", lambda d: d["z"], None),
                       ("k", lambda d: d["k"].astype(float), None),
                       ("`x 1`", lambda d: d["x 1"], "x 1"),
                       ("np.log(x)", lambda d: np.log(d["x"]), None),
                       ("log(x)", lambda d: np.log(d["x"]), None),
                       ("np.exp(z)", lambda d: np.exp(d["z"]), None),
                       ("I(z ** 2)", lambda d: d["z"] ** 2, None),
                       ("I(x*z)", lambda d: d["x"] * d["z"], "I(x * z)"),
                       ("{z + x}", lambda d: d["z"] + d["x"], "z + x"),
                       ("np.sqrt(x + k)", lambda d: np.sqrt(d["x"] + d["k"]), None),
                       ("center(z)", lambda d: d["z"] - mz, None),
                       ("scale(x)", lambda d: (d["x"] - mx) / sx, None)]:
        F.append(Factor(t, "state" if t[:6] in ("center", "scale(") else "num",
                        lambda d, f=f: {None: np.asarray(f(d), float)}, name))
    if len(np.unique(x)) > 6:
        sp = spline_state(basis_spline, x, dict(df=4))
        F.append(Factor("bs(x, df=4)", "bs", lambda d: multi(sp(d["x"]))))
        po = spline_state(poly, z, dict(degree=2))
        F.append(Factor("poly(z, degree=2)", "poly", lambda d: multi(po(d["z"]))))

    def cat(text, var, kind, name=None, levels=None):
        lv = list(levels)
        m = miss and any(v is None for v in data[var])
        # C() has a missing_name argument of its own (tabmat), with this default
        mname = "(MISSING)" if text.startswith("C(") else miss_name

        def fun(d):
            out = {str(v): np.array([a is not None and a == v for a in d[var]], float) for v in lv}
            if m:
                out[mname] = np.array([a is None for a in d[var]], float)
            return out
        F.append(Factor(text, kind, fun, name, [str(v) for v in lv] + [mname] * m, var))
    cat("c", "c", "cat", levels=data["_levels_c"])
    cat("g", "g", "cat", levels=data["_levels_g"])
    cat("C(c)", "c", "C", levels=data["_levels_c"])
    cat("s", "s", "str", levels=sorted({v for v in data["s"] if v is not None}))
    if not data["_polars"]:  # tabmat cannot encode polars booleans
        cat("b", "b", "bool", levels=[False, True] if len(set(data["b"])) == 2 else sorted(set(data["b"])))
    cat("C(k)", "k", "C", levels=sorted(set(data["k"].tolist())))
    if all(v is not None for v in data["c"]):
        rv = data["_levels_c"][::-1]
        t = "C(c, levels=[" + ", ".join(repr(v) for v in rv) + "])"
        cat(t, "c", "Clevels", name=t, levels=rv)
    if ctxmode != "none":
        F.append(Factor("half(z)", "ctx", lambda d: {None: d["z"] / 2}, ctx=True))
        F.append(Factor("I(x * factor)", "ctx", lambda d: {None: d["x"] * 1.75}, ctx=True))
        F.append(Factor("np.minimum(z, cap)", "ctx", lambda d: {None: np.minimum(d["z"], .3)}, ctx=True))
    return F


def term_columns(term, d, fmt, sep):
    """{(name, combination): column} of a term under full dummy encoding."""
    parts = []
    for f in term:
        vals = f.fun(d)
        parts.append([((f.name if i is None else
                        (fmt if f.levels is not None else "{name}[{category}]").format(name=f.name, category=i)), v)
                      for i, v in vals.items()])
    out = [("", None)]
    for k, part in enumerate(parts):
        out = [((a + sep if k else "") + nm, v if col is None else col * v)
               for a, col in out for nm, v in part]
    return out


def design_map(terms, d, fmt, sep):
    m = {}
    for t in terms:
        for nm, v in term_columns(t, d, fmt, sep):
            if nm in m:
                raise Skip("two columns of the same name")
            m[nm] = v
    return m


def sub_columns(term, d, fmt, sep):
    """Columns of a term and of its margins over categorical factors."""
    out = []
    for mask in itertools.product((True, False), repeat=len(term)):
        sub = [f for f, keep in zip(term, mask) if keep or f.levels is None]
        if sub:
            out += term_columns(sub, d, fmt, sep)
    return out


# ------------------------------------------------------------- data
def make_data(rng, n, backend, missing):
    d = {"x": rng.uniform(.3, 3, n), "z": rng.normal(size=n), "k": rng.integers(0, 4, n),
         "x 1": rng.normal(size=n) * 3, "b": rng.random(n) < rng.uniform(.3, .7)}
    lc = ["a", "b", "cc", "d"][:int(rng.integers(2, 5))]
    lg = [str(v) for v in rng.permutation(["u", "v", "w", "q", "r", "10"])[:int(rng.integers(2, 7))]]
    for nm, lv in (("c", lc), ("g", lg), ("s", ["p", "q", "r"][:int(rng.integers(2, 4))])):
        v = [lv[j] for j in rng.integers(0, len(lv), n)]
        for j, l in zip(rng.permutation(n)[:len(lv)], lv):
            v[j] = l
        d[nm] = v
    d["_polars"] = backend == "polars"
    d["_levels_c"] = lc if rng.random() < .5 else lc[::-1]
    d["_levels_g"] = lg
    if missing:
        for nm in ("c", "s"):
            if rng.random() < .7:
                for j in rng.permutation(n)[:max(1, n // 8)]:
                    if d[nm].count(d[nm][j]) > 1:
                        d[nm][j] = None
    return d


COLS = ["x", "z", "k", "x 1", "b", "c", "g", "s"]


def frame(d, backend, order=None, levels_c=None, extra=None, plain=False):
    cols = {}
    for nm in order or COLS:
        v = d[nm]
        if nm in ("c", "g"):
            lv = d["_levels_" + nm] if nm == "g" or levels_c is None else levels_c
            if backend == "pandas":
                import pandas as pd
                v = np.array(v, dtype=object) if plain else \
                    pd.Categorical(v, categories=lv)
            else:
                import polars as pl
                v = pl.Series(v, dtype=pl.String) if plain else pl.Series(v, dtype=pl.Enum(lv))
        elif nm == "s" and backend == "pandas":
            v = np.array(v, dtype=object)
        cols[nm] = v
    cols.update(extra or {})
    if backend == "pandas":
        import pandas as pd
        return pd.DataFrame(cols)
    import polars as pl
    return pl.DataFrame(cols)


def take(d, idx):
    out = {}
    for k, v in d.items():
        out[k] = v if k.startswith("_") else ([v[j] for j in idx] if isinstance(v, list) else v[idx])
    return out


def refuse(mon, what, f, sig, **detail):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f()
    except Exception as e:
        mon.check(not isinstance(e, (AssertionError, UnboundLocalError)),
                  what + ": refused by an internal error", error=repr(e), sig=sig)
        return
    mon.check(False, what, sig=sig, **detail)


class Ctx:
    """Call a method so that the helper names are visible only as the mode says."""

    def __init__(self, mode):
        self.mode = mode

    def __call__(self, f, *a, **k):
        return getattr(self, "m_" + self.mode)(f, *a, **k)

    def m_none(self, f, *a, **k):
        return f(*a, **k)

    def m_mapping(self, f, *a, **k):
        return f(*a, context={"half": lambda v: v / 2, "factor": 1.75, "cap": .3}, **k)

    def m_zero(self, f, *a, **k):
        half, factor, cap = (lambda v: v / 2), 1.75, .3  # noqa: F841 (looked up by name)
        return f(*a, context=0, **k)

    def m_one(self, f, *a, **k):
        half, factor, cap = (lambda v: v / 2), 1.75, .3  # noqa: F841

        def inner():
            half = factor = None  # noqa: F841  (must not be picked up)
            return f(*a, context=1, **k)
        return inner()


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    import formulaic
    rng = harness.rng_for("C18", case["seed"], case["i"])
    backend = ["pandas", "polars"][int(rng.random() < .3)]
    method = ["fail", "fail", "zero", "convert"][rng.integers(4)]
    miss_name = ["(MISSING)", "nan", "zz"][rng.integers(3)]
    fmt = ["{name}[{category}]", "{name}[{category}]", "{name}__{category}", "{name}[T.{category}]"][rng.integers(4)]
    sep = [":", ":", " x ", "*"][rng.integers(4)]
    drop_first = bool(rng.random() < .35)
    n = int(rng.choice([25, 40, 80]))
    ctxmode = ["none", "none", "mapping", "zero", "one"][rng.integers(5)]
    data = make_data(rng, n, backend, method != "fail")
    pool = factors(rng, data, ctxmode, method == "convert", miss_name)
    # ---- terms
    terms, seen = [], set()
    for _ in range(int(rng.integers(1, 5))):
        r = rng.random()
        k = 1 if r < .62 else 2 if r < .93 else 3
        t = [pool[j] for j in rng.permutation(len(pool))[:k]]
        if len({f.name for f in t}) < k or len([f for f in t if f.var]) != len({f.var for f in t if f.var}):
            continue
        key = frozenset(f.name for f in t)
        if key in seen:
            continue
        seen.add(key)
        terms.append(t)
    if ctxmode != "none" and not any(f.ctx for t in terms for f in t):
        c = [f for f in pool if f.ctx]
        terms.append([c[rng.integers(len(c))]])
    if not terms:
        raise Skip("no terms")
    text = []
    expanded = list(terms)
    i = 0
    while i < len(terms):
        t = terms[i]
        sub = [frozenset([f.name]) for f in t]
        if len(t) == 2 and rng.random() < .4 and not any(s in seen for s in sub):
            text.append(f"{t[0].text} * {t[1].text}" if rng.random() < .6 else
                        f"({t[0].text} + {t[1].text}) ** 2")
            expanded[i:i] = []
            expanded += [[t[0]], [t[1]]]
            seen.update(sub)
        else:
            text.append(":".join(f.text for f in t))
        i += 1
    terms = expanded
    if any(len(t) > 1 and all(f.levels is None for f in t) for t in terms):
        sep = ":"  # tabmat refuses to predict numeric interactions with another separator
    fi = bool(rng.random() < .75)
    rhs = " + ".join(text)
    style = ""
    if rng.random() < .35:
        style = "1 + " if fi else ["0 + ", "-1"][rng.integers(2)]
        rhs = rhs + " - 1" if style == "-1" else style + rhs
    full = design_map(terms, data, fmt, sep)
    if len(full) > 30:
        raise Skip("too many columns")
    fc = gen.pick_family(rng, convex=True)
    if fc.limited:
        raise Skip("limited link")
    D0 = np.column_stack(list(full.values()))
    off = gen.make_offset(rng, n, fc)
    y = np.asarray(gen.make_target(rng, fc, D0 / np.maximum(np.abs(D0).max(0), 1), off, sd=.5), float)
    w = None if rng.random() < .6 else rng.uniform(.3, 2, n)
    if w is not None and fc.kind == "binomial" and not 0 < (w * y).sum() < w.sum():
        w = None
    two = bool(rng.random() < .45)
    extra, lhs = {}, None
    yarg = y
    if two:
        lhs = ["target", "target", "`the y`", "{target * 1.0}", "I(target)"][rng.integers(5)]
        extra = {("the y" if lhs == "`the y`" else "target"): y}
        if fc.kind == "gamma" and rng.random() < .5:
            lhs = "np.exp(target)"
            extra = {"target": np.log(y)}
            yarg = y = np.exp(np.log(y))
    formula = (f"{lhs} ~ {rhs}" if two else rhs)
    pen = gen.make_penalty(rng, len(full), alpha=10 ** rng.uniform(-2.5, -.3))
    L1 = pen["l1_ratio"] > 0
    if drop_first:
        pen.pop("P1", None)
        pen.pop("P2", None)
    solver = "irls-cd" if L1 or rng.random() < .4 else "irls-ls"
    scale = bool(fi and rng.random() < .1)
    kw = dict(fit_intercept=fi, max_iter=300, solver=solver, gradient_tol=1e-9, scale_predictors=scale,
              family=fc.glum_family(rng), link=fc.glum_link(rng))
    arg = formula
    asobj = bool(rng.random() < .15 and fi and ctxmode == "none")
    if asobj:
        arg = formulaic.Formula(formula)
    est = GeneralizedLinearRegressor(formula=arg, drop_first=drop_first, cat_missing_method=method,
                                     cat_missing_name=miss_name, categorical_format=fmt,
                                     interaction_separator=sep, **kw, **pen)
    X = frame(data, backend, [str(c) for c in rng.permutation(COLS)], extra=extra)
    call = Ctx(ctxmode)
    sig = (tuple(sorted("-".join(f.kind for f in t) for t in terms)), backend, two, lhs, fi, style,
           drop_first, method, fmt, sep, ctxmode, solver)
    args = (X,) if two else (X, y)

    def do_fit(e, **k):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            call(e.fit, *args, sample_weight=w, offset=off, **k)
        return rec
    try:
        rec = do_fit(est)
    except np.linalg.LinAlgError:
        if gen.semidefinite(pen.get("P2")):
            raise Skip("semidefinite P2")
        raise
    if not gen.converged(rec):
        mon.event("warned")
        return
    mon.event("fit")
    if two:
        mon.event("two-sided")
    fn = list(est.feature_names_)
    mon.state(*sig)
    mon.sample({"formula": formula, "columns": fn, "backend": backend, "context": ctxmode})
    # ---- columns
    if not drop_first:
        mon.check(sorted(fn) == sorted(full), "the columns of the formula differ from the ones its terms "
                  "denote", got=fn, want=sorted(full), formula=formula, sig=sig)
    else:
        # reducing the rank rewrites a:b as (reduced a):(reduced b) + reduced a + ...
        for t in terms:
            for nm, v in sub_columns(t, data, fmt, sep):
                full.setdefault(nm, v)
        mon.check(set(fn) <= set(full) and len(set(fn)) == len(fn),
                  "a column of the formula is none its terms denote", got=fn, want=sorted(full),
                  formula=formula, sig=sig)
    if not (set(fn) <= set(full)):
        return
    tn = [":".join(f.name for f in t) for t in terms]
    mon.check(set(est.term_names_) <= set(tn) and len(est.term_names_) == len(fn),
              "term_names_ differ from the terms of the formula", got=list(est.term_names_), want=tn,
              sig=sig)
    if len(est.term_names_) == len(fn):
        own = {}
        for t in terms:
            for nm, _ in (sub_columns if drop_first else term_columns)(t, data, fmt, sep):
                own.setdefault(nm, set()).add(":".join(f.name for f in t))
        mon.check(all(b in own[a] for a, b in zip(fn, est.term_names_)), "term_names_ do not match the columns",
                  got=list(est.term_names_), columns=fn, sig=sig)
    D = np.column_stack([full[c] for c in fn])
    if drop_first and (method == "convert" or all(v is not None for c in "cs" for v in data[c])):
        one = np.ones((n, int(fi)))
        A, B = np.hstack([one, D]), np.hstack([one, D0])
        A, B = (M / np.maximum(np.abs(M).max(0), 1e-300) for M in (A, B))
        ra, rb = np.linalg.matrix_rank(A, 1e-8), np.linalg.matrix_rank(B, 1e-8)
        rab = np.linalg.matrix_rank(np.hstack([A, B]), 1e-8)
        mon.event("span")
        mon.check(ra == rb == rab, "drop_first changes the space of models the formula denotes",
                  formula=formula, kept=fn, ranks=(int(ra), int(rb), int(rab)), sig=sig)
        onlymain = all(len(t) == 1 for t in terms)
        if onlymain and fi:
            want = []
            for t in terms:
                c = [nm for nm, _ in term_columns(t, data, fmt, sep)]
                want += c[1:] if t[0].levels is not None else c
            mon.check(sorted(want) == sorted(fn), "drop_first does not drop exactly the first level",
                      got=fn, want=want, formula=formula, sig=sig)
    ref = GeneralizedLinearRegressor(**kw, **pen)
    recR = meta.guarded_fit(ref, D, y, w, off, fc)
    base = meta.BaseFit(ref, recR, fc, D, y, w, off, pen, fi, scale, 1e-9)
    mar = base.margin(solver)
    if not meta.compare(mon, "the formula model differs from the model on its design", est, ref, mar,
                        sig=sig, formula=formula, columns=fn):
        return
    mon.check((float(est.intercept_) == 0.0) or fi, "an intercept although none was requested",
              got=est.intercept_, sig=sig)
    # ---- prediction on new data
    b, b0 = np.asarray(est.coef_, float), float(est.intercept_)
    stateful = any(f.kind in ("bs", "poly", "state") for t in terms for f in t)

    def probe(what, Xn, dn, model=est, offset=None):
        m = design_map(terms, dn, fmt, sep)
        for t in terms if drop_first else ():
            for nm, v in sub_columns(t, dn, fmt, sep):
                m.setdefault(nm, v)
        Dn = np.column_stack([m[c] for c in fn])
        eta = Dn @ b + b0 + (0 if offset is None else offset)
        tol = (1e-8 if stateful else 1e-10) * (np.abs(Dn) @ np.abs(b) + abs(b0) + 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = np.asarray(call(model.linear_predictor, Xn, offset=offset), float)
        mon.event("probe:" + what)
        ok = mon.check(got.shape == eta.shape and bool(np.all(np.abs(got - eta) <= tol)),
                       f"linear predictor on {what} is not the training encoding re-evaluated",
                       got=got[:6], want=eta[:6], formula=formula, sig=sig)
        if ok:
            mu = np.asarray(call(model.predict, Xn, offset=offset), float)
            mon.close(mu, np.asarray(model.link_instance.inverse(eta)),
                      f"prediction on {what} is not the training encoding re-evaluated",
                      rtol=1e-7, atol=1e-10, sig=sig)
    rows = rng.integers(0, n, int(rng.integers(2, 12)))
    dn = take(data, rows)
    for nm in ("x", "z", "x 1"):  # inside the training range, for splines
        v = data[nm]
        dn[nm] = rng.uniform(v.min(), v.max(), len(rows))
    newoff = rng.normal(size=len(rows)) if rng.random() < .3 else None
    probe("new rows", frame(dn, backend), dn, offset=newoff)
    probe("permuted columns", frame(dn, backend, [str(c) for c in rng.permutation(COLS)],
                                    extra={"zzz": np.zeros(len(rows))}), dn)
    lc = [str(v) for v in rng.permutation(data["_levels_c"])]
    probe("reordered categories", frame(dn, backend, levels_c=lc), dn)
    if method == "fail":
        probe("plain strings", frame(dn, backend, plain=True), dn)
    d1 = take(data, [int(rng.integers(n))])
    probe("single row", frame(d1, backend), d1)
    probe("pickled model", frame(dn, backend), dn, pickle.loads(pickle.dumps(est))
          if ctxmode in ("none",) else est)
    used_c = [f for t in terms for f in t if f.var in ("c", "s", "g")]
    if used_c:
        f = used_c[rng.integers(len(used_c))]
        dn2 = take(data, np.arange(4))
        dn2[f.var] = dn2[f.var][:3] + ["unseen"]
        if f.var != "s":
            dn2["_levels_" + f.var] = data["_levels_" + f.var] + ["unseen"]
        if f.kind != "Clevels":
            mon.event("unseen refused")
            Xu = frame(dn2, backend, plain=bool(rng.random() < .5) and method == "fail")
            refuse(mon, "an unseen category is accepted at prediction", lambda: call(est.predict, Xu),
                   sig, formula=formula)
    # ---- context
    if ctxmode != "none":
        mon.event("context")
        Xn = frame(dn, backend)
        for nm, f in (("fit", lambda: GeneralizedLinearRegressor(formula=arg, **kw).fit(*args)),
                      ("predict", lambda: est.predict(Xn)),
                      ("linear_predictor", lambda: est.linear_predictor(Xn))):
            mon.event("context refused")
            refuse(mon, f"{nm} resolves names that were not passed as context", f, sig, formula=formula)
        if rng.random() < .5:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a = call(est.score, X, y, sample_weight=w, offset=off)
            mon.close(a, ref.score(D, y, sample_weight=w, offset=off), "score with a context differs",
                      rtol=1e-5 + 100 * mar.delta, atol=1e-6 + 100 * mar.delta, sig=sig)
    # ---- information criteria (the first one asked for computes all three)
    if off is None and rng.random() < .3:
        cs = [str(c) for c in rng.permutation(["aic", "aicc", "bic"])]
        keep = ref.coef_, ref.intercept_
        ref.coef_, ref.intercept_ = est.coef_, est.intercept_
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                want = [getattr(ref, c)(D, y, sample_weight=w) for c in cs]
            except (NotImplementedError, ValueError):
                want = None
            if want is not None:
                mon.event("criteria")
                for c, v in zip(cs, want):
                    g = call(getattr(est, c), X, y, sample_weight=w)
                    mon.check((g is None) == (v is None) and
                              (v is None or abs(g - v) <= 1e-8 * (abs(v) + n)),
                              f"{c} through the formula differs from the design's", got=g, want=v,
                              sig=sig)
        ref.coef_, ref.intercept_ = keep
    # ---- contradictions
    if rng.random() < .35:
        mon.event("contradiction")
        r = rng.integers(4)
        if r == 0 and two:
            refuse(mon, "a two-sided formula together with y is accepted",
                   lambda: call(GeneralizedLinearRegressor(formula=arg, **kw).fit, X, y), sig)
        elif r <= 1 and not two:
            refuse(mon, "a one-sided formula without y is accepted",
                   lambda: call(GeneralizedLinearRegressor(formula=arg, **kw).fit, X), sig)
        elif r == 2:
            k2 = dict(kw, scale_predictors=False)
            other = ("0 + " if fi else "1 + ") + rhs.replace("1 + ", "", 1).replace("0 + ", "", 1).replace(" - 1", "")
            refuse(mon, "a formula whose intercept contradicts fit_intercept is accepted",
                   lambda: call(GeneralizedLinearRegressor(formula=(f"{lhs} ~ " if two else "") + other,
                                                           **k2).fit, *args), sig)
        else:
            refuse(mon, "several targets on the left-hand side are accepted",
                   lambda: GeneralizedLinearRegressor(formula="x + z ~ k", family="normal").fit(X), sig)
    # ---- inference through the formula
    if not L1 and rng.random() < .3 and fc.kind != "binomial":
        Z = np.column_stack([np.ones(n), D]) if fi else D
        sv = np.linalg.svd(Z / np.maximum(np.abs(Z).max(0), 1e-300), compute_uv=False)
        if Z.shape[1] < n - 2 and sv[-1] > 1e-3 * sv[0] and np.abs(base.eta).max() < 8:
            mon.event("inference")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                call2 = lambda f, *a, **k: call(f, *a, sample_weight=w, offset=off, **k)
                V1 = call2(est.covariance_matrix, X, None if False else y)
                ref.coef_, ref.intercept_ = est.coef_, est.intercept_
                V2 = ref.covariance_matrix(D, y, sample_weight=w, offset=off)
                s = np.sqrt(np.abs(np.outer(np.diag(V2), np.diag(V2))))
                mon.check(V1.shape == V2.shape and
                          bool(np.all(np.abs(V1 - V2) <= 1e-6 * (s + 1e-3 * s.max()))),
                          "covariance through the formula differs from the design's", sig=sig)
                se = call2(est.std_errors, X, y)
                mon.close(se, np.sqrt(np.diag(V2)), "standard errors through the formula differ",
                          rtol=1e-5, atol=1e-4 * np.sqrt(np.diag(V2)).max(), sig=sig)
                tab = call2(est.coef_table, X, y)
                want = (["intercept"] if fi else []) + fn
                mon.check(list(tab.index) == want, "coef_table is not labelled by the columns",
                          got=list(tab.index), want=want, sig=sig)
    # ---- cross validation through the formula
    if rng.random() < .06 and not drop_first and backend == "pandas" and "P1" not in pen and \
            "P2" not in pen:
        ck = dict(kw)
        cv = dict(alphas=[.3, .05], l1_ratio=pen["l1_ratio"], cv=2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                B = GeneralizedLinearRegressorCV(**ck, **cv).fit(D, y, sample_weight=w, offset=off)
            except ValueError:
                raise Skip("CV refused the design")
            Acv = GeneralizedLinearRegressorCV(formula=arg, cat_missing_method=method,
                                               cat_missing_name=miss_name, categorical_format=fmt,
                                               interaction_separator=sep, **ck, **cv)
            call(Acv.fit, *args, sample_weight=w, offset=off)
        mon.event("cv")
        dv = np.abs(Acv.deviance_path_ - B.deviance_path_)
        mon.check(bool(np.all(dv <= 1e-4 * (1 + np.abs(B.deviance_path_)))),
                  "cross-validated deviances through the formula differ from the design's", sig=sig,
                  a=Acv.deviance_path_, b=B.deviance_path_)


if __name__ == "__main__":
    import checks.c18 as mod
    harness.main(mod)
