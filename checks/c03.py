"""C03: weights mean replication, only ratios matter, row order is irrelevant."""
import numpy as np

from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C03"
RULE = ("random strictly convex GLM problems fitted as given and again with rows replicated, "
        "split, dropped / padded with zero-weight junk rows, weights rescaled or rows permuted; "
        "non-trivial = both fits finished without a convergence warning and were compared within "
        "the conditioning-derived bound; distinct = law, family/link, container, solver, weight "
        "kind, penalty, intercept, scaling")
MINIMUM = {"quick": {"oracle": 4000, "states": 700, "law:replicate": 200, "law:zero": 200,
                     "law:rescale": 200, "law:permute": 200, "law:split": 200},
           "thorough": {"oracle": 40000, "states": 2500}}
LAWS = ["replicate", "zero", "rescale", "permute", "split"]


def plan(tier, seed):
    n = 10000 if tier == "quick" else 60000
    return [{"seed": seed, "i": i} for i in range(n)]


def transform(rng, law, data, y, w, off):
    """(data', y', w', off', k) with the same meaning as the input."""
    n = data.n
    o = np.zeros(n) if off is None else off
    if law == "replicate":
        idx = np.repeat(np.arange(n), w.astype(int))
        d2, y2, o2, w2 = data.take(idx), y[idx], o[idx], None
        if rng.random() < 0.3:
            w2 = np.ones(len(idx))
    elif law == "permute":
        idx = rng.permutation(n)
        d2, y2, o2, w2 = data.take(idx), y[idx], o[idx], None if w is None else w[idx]
    elif law == "rescale":
        wv = np.ones(n) if w is None else w
        d2, y2, o2 = data, y, o
        w2 = wv * float(rng.choice([1e-8, 1e-3, 0.3, 7.0, 1e4, 1e9]))
    elif law == "split":
        wv = np.ones(n) if w is None else w
        pick = rng.integers(0, n, size=max(1, n // 2))
        idx = np.concatenate([np.arange(n), pick])
        w2 = wv[idx].astype(float)
        for k, i in enumerate(pick):       # move part of row i's weight to its copy
            f = rng.uniform(0, 1)
            w2[n + k] = w2[i] * f
            w2[i] *= 1 - f
        perm = rng.permutation(len(idx))
        idx, w2 = idx[perm], w2[perm]
        d2, y2, o2 = data.take(idx), y[idx], o[idx]
    else:  # zero-weight rows: drop the present ones, pad with junk
        wv = np.ones(n) if w is None else w
        m = int(rng.integers(1, n))
        src = rng.integers(0, n, size=m)
        idx = np.concatenate([np.flatnonzero(wv > 0), src])
        k = int((wv > 0).sum())
        w2 = np.concatenate([wv[wv > 0], np.zeros(m)])
        d2 = data.take(idx)
        cols = []
        for c in d2.cols:
            v = np.array(c[2])
            if c[0] == "num":
                v[k:] = v[k + rng.permutation(m)] + (rng.random(m) < .5) * v.std()
            else:
                v[k:] = rng.integers(0, len(c[3]), size=m)
            cols.append((c[0], c[1], v) + tuple(c[3:]))
        d2 = gen.Data(cols, len(idx))
        y2, o2 = y[idx].copy(), o[idx].copy()
        y2[k:] = y2[k + rng.permutation(m)]
        pos = np.r_[np.ones(k, bool), np.zeros(m, bool)]
        perm = rng.permutation(len(idx))
        d2, y2, o2, w2, pos = d2.take(perm), y2[perm], o2[perm], w2[perm], pos[perm]
    return d2, y2, w2, (None if off is None else o2)


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor
    rng = harness.rng_for("C03", case["seed"], case["i"])
    law = LAWS[case["i"] % len(LAWS)]
    pr = gen.make_problem(rng, convex=True, alpha=10 ** rng.uniform(-3, 0))
    n = pr.data.n
    y = np.asarray(pr.y, float)
    w = pr.w
    if law == "replicate":
        w = rng.integers(0 if rng.random() < 0.5 else 1, 5, n).astype(float)
        if (w > 0).sum() < n // 2 + 1 or (w * y).sum() == 0:
            w = np.maximum(w, 1.0)
        if pr.fc.kind == "binomial" and ((w * y).sum() == 0 or (w * (1 - y)).sum() == 0):
            w = np.maximum(w, 1.0)
    if law == "zero" and rng.random() < 0.4:
        w = np.ones(n) if w is None else w.copy()
        z = rng.random(n) < 0.2
        if (z & (y == 0)).sum() == z.sum() or (w[~z] * y[~z]).sum() != 0:
            w[z] = 0.0
    fit_intercept = bool(rng.random() < 0.85) or pr.fc.limited
    scale = bool(fit_intercept and rng.random() < 0.25)
    L1 = pr.pen["l1_ratio"] > 0
    solver = "irls-cd" if L1 or rng.random() < 0.5 else "irls-ls"
    if not L1 and pr.fc.name == "normal/identity" and rng.random() < 0.3:
        solver = "closed-form"
    if pr.data.has_cat:
        stores = ["df_cat", "polars_cat", "tm_cat"]
    else:
        stores = ["c", "f", "csc", "csr", "df", "tm_split", "tm_sparse"]
    sa, sb = (stores[rng.integers(len(stores))] for _ in range(2))
    kw = dict(fit_intercept=fit_intercept, scale_predictors=scale, max_iter=300,
              family=pr.fc.glum_family(rng), link=pr.fc.glum_link(rng), solver=solver,
              gradient_tol=1e-9, **pr.pen)
    d2, y2, w2, o2 = transform(rng, law, pr.data, y, w, pr.off)
    wv = np.ones(n) if w is None else w
    if pr.fc.kind == "binomial" and not (0 < (wv * y).sum() < wv.sum()):
        raise Skip("degenerate target")
    A, B = GeneralizedLinearRegressor(**kw), GeneralizedLinearRegressor(**kw)
    keep = wv > 0
    X = pr.X
    recA = meta.guarded_fit(A, pr.data.store(sa), y, w, pr.off, pr.fc)
    base = meta.BaseFit(A, recA, pr.fc, X, y, wv, pr.off, pr.pen, fit_intercept, scale, 1e-9)
    recB = meta.guarded_fit(B, d2.store(sb), y2, w2, o2, pr.fc)
    sig = (law, pr.fc.name, sa, sb, solver, pr.wkind, "L1" if L1 else "L2", fit_intercept, scale,
           pr.off is not None)
    if not gen.converged(recB):
        mon.event("warned")
        return
    mar = base.margin(solver)
    mon.event("law:" + law)
    mon.state(*sig)
    mon.sample({"sig": [str(s) for s in sig], "delta": mar.delta})
    msg = {"replicate": "integer weights and repeated rows give different models",
           "zero": "zero-weight rows influence the model",
           "rescale": "multiplying all weights by a constant changes the model",
           "permute": "reordering the rows changes the model",
           "split": "splitting a row's weight over two copies changes the model"}[law]
    meta.compare(mon, msg, B, A, mar, sig=sig, n=n)
    muA = np.asarray(A.predict(pr.data.store(sa), offset=pr.off), float)
    base.check_mu(mon, msg + " (predictions)",
                  B.predict(pr.data.store(sa), offset=pr.off), mar, sig=sig)
    # The same laws for score, deviance and dispersion at fixed means.
    sA = A.score(pr.data.store(sa), y, sample_weight=w, offset=pr.off)
    sB = A.score(d2.store(sb), y2, sample_weight=w2, offset=o2)
    mon.close(sB, sA, msg.split(" give")[0].split(" infl")[0] + " change the score", rtol=1e-8,
              atol=1e-8, sig=sig)
    mu2 = np.asarray(A.predict(d2.store(sb), offset=o2), float)
    fam = A.family_instance
    devA, devB = fam.deviance(y, muA, w), fam.deviance(y2, mu2, w2)
    f = 1.0
    tot = wv.sum()
    tot2 = len(y2) if w2 is None else w2.sum()
    if law == "rescale":
        f = tot2 / tot
    mon.close(devB, devA * f, "weighted deviance breaks the " + law + " law", rtol=1e-7,
              atol=1e-9 * tot2 * (1 + np.abs(y).max()), sig=sig)
    if law != "rescale" and tot > 2:
        for method in ("pearson", "deviance"):
            dA = fam.dispersion(y, muA, w, ddof=1, method=method)
            dB = fam.dispersion(y2, mu2, w2, ddof=1, method=method)
            mon.close(dB, dA, f"{method} dispersion breaks the " + law + " law", rtol=1e-6,
                      atol=1e-9 * (1 + np.abs(y).max()), sig=sig)


if __name__ == "__main__":
    import checks.c03 as m
    harness.main(m)
