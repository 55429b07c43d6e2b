"""C14: score and information criteria equal their definitions, also after refits."""
import warnings

import numpy as np

from checks.c07 import __dict__ as _c07
from vlib import gen, harness, meta, ref
from vlib.harness import Skip

PROPERTY = "C14"
RULE = ("score / aic / aicc / bic calls on random fitted models (plain, path, CV, formula), on "
        "training and other rows, interleaved with refits on other data and changed parameters; "
        "non-trivial = value judged against an independent deviance or log-likelihood; distinct = "
        "quantity, family/link, model type, storage, weights, offset, position in the history")
MINIMUM = {"quick": {"oracle": 5000, "states": 900, "score": 1500, "aic": 300, "aicc": 250,
                     "bic": 300, "refit": 400, "perfect": 40, "null": 60, "refused": 200},
           "thorough": {"oracle": 60000, "states": 3000}}
ASSUMPTIONS = ["log-likelihood uses the documented estimated (Pearson, ddof=1) dispersion when the "
               "family has one, weights multiply log-likelihood contributions"]


def plan(tier, seed):
    n = 7500 if tier == "quick" else 20000
    return [{"seed": seed, "i": i} for i in range(n)]


def tweedie_logc(y, phi, p):
    f = [v for k, v in _c07.items() if callable(v) and getattr(v, "__doc__", None)
         and "compound-Poisson-gamma series" in (v.__doc__ or "")][0]
    return f(y, p, phi)


def loglik(fam, y, mu, w):
    """(value, magnitude of its terms)"""
    p = fam.power
    phi = np.sum(w * (y - mu) ** 2 / fam.var(mu)) / (w.sum() - 1)
    if fam.kind in ("binomial", "negbin") or p == 1:
        phi = 1.0
    if not phi > 0:
        raise Skip("no dispersion")
    if p is not None and 1 < p < 2:
        th, ka = mu ** (1 - p) / (1 - p), mu ** (2 - p) / (2 - p)
        t = (y * th - ka) / phi + tweedie_logc(y, phi, p)
        mag = (np.abs(y * th) + ka) / phi + np.abs(t) + 1
    else:
        t = fam.logpdf(y, mu, phi, 1.0)
        mag = np.abs(t) + 1 + np.abs(np.log(phi)) + (1 / phi if p is not None and p > 1 else 1)
    return float(np.sum(w * t)), float(np.sum(w * mag))


def run_case(case, mon):
    from glum import GeneralizedLinearRegressor, GeneralizedLinearRegressorCV
    rng = harness.rng_for("C14", case["seed"], case["i"])
    i = case["i"]
    kind = ["plain", "plain", "path", "cv", "formula"][i % 5]
    est, prev_fc = None, None
    last = None
    n_fits = int(rng.integers(1, 4))
    for step in range(n_fits):
        special = (["perfect", "null", ""][rng.integers(3)]
                   if rng.random() < .35 and kind == "plain" else "")
        fc = gen.FamilyChoice("normal", None, "identity", True) if special == "perfect" else None
        pr = gen.make_problem(rng, convex=True if kind != "plain" else None, fc=fc, spread=.6,
                              alpha=0.0 if rng.random() < .4 else 10 ** rng.uniform(-3, 0),
                              n=int(rng.choice([8, 25, 60, 120], p=[.15, .3, .35, .2])),
                              offset=rng.random() < .5,
                              cats=None if kind != "formula" else int(rng.random() < .5))
        fc = pr.fc
        if fc.linkname.startswith("tweedie") or (fc.limited and kind != "plain"):
            raise Skip("limited link")
        if special == "null":
            pr.off, pr.pen = None, dict(alpha=1e6, l1_ratio=1.0)
        if special == "perfect":
            pr.off = None
            bt = rng.normal(size=pr.X.shape[1]) / np.maximum(pr.X.std(0), 1e-3)
            pr.y = pr.X @ bt + 1.0
            if pr.X.shape[1] + 2 > pr.data.n:
                raise Skip("too few rows")
            pr.pen = dict(alpha=0.0)
        if pr.wkind == "zeros" and kind == "cv":
            pr.w = None
        n = pr.data.n
        X, y, off = pr.X, pr.y, pr.off
        w = pr.wvec()
        fi = bool(rng.random() < .8) or fc.limited or special != ""
        pen = dict(pr.pen)
        if kind == "formula":
            pen = dict(alpha=pen["alpha"], l1_ratio=pen.get("l1_ratio", 0.0))
        kw = dict(family=fc.glum_family(rng), link=fc.glum_link(rng), fit_intercept=fi,
                  max_iter=200, gradient_tol=1e-6, P1=pen.get("P1", "identity"),
                  P2=pen.get("P2", "identity"), l1_ratio=float(pen.get("l1_ratio", 0.0)))
        a = pen["alpha"]
        if kind in ("path", "cv"):
            al = [max(a, 1e-3) * 3, max(a, 1e-3)]
            r = rng.random()
            if kind == "path" and r < .4:
                al = [al[0] * 2] + al
            if kind == "path" and .25 < r < .5:
                al[-1] = 0.0
            kw["alphas" if kind == "cv" else "alpha"] = al
            if kind == "cv":
                kw["cv"] = 2
            else:
                kw["alpha_search"] = True
        else:
            kw["alpha"] = a
        drop = False
        if kind == "formula":
            kw.pop("P1"), kw.pop("P2")
            two = bool(rng.random() < .5)
            kw["formula"] = ("yy ~ " if two else "") + " + ".join(c[1] for c in pr.data.cols) + \
                ("" if fi else " - 1")
        # a new estimator, or the same one with new parameters
        if est is None or rng.random() < .15:
            est = (GeneralizedLinearRegressorCV if kind == "cv" else
                   GeneralizedLinearRegressor)(**kw)
        else:
            base = dict(P1="identity", P2="identity", drop_first=False)
            base.update(kw)
            est.set_params(**base)
            mon.event("refit")
        store = "df" if kind == "formula" else (["df", "polars", "tm_cat"][rng.integers(3)]
                                                if pr.data.has_cat else
                                                gen.STORES[rng.integers(len(gen.STORES))])
        Xs = pr.data.store(store)
        ya = gen.as_y_arg(rng, y)
        yf = ya
        if kind == "formula" and two:
            Xs["yy"] = y
            yf = None
        wa = gen.as_weight_arg(rng, pr.w, n)
        try:
            rec = meta.guarded_fit(est, Xs, yf, wa, off, fc)
        except np.linalg.LinAlgError:
            raise Skip("singular design said so")
        except ValueError as e:
            s = str(e)
            if "infs or NaNs" in s or "No variation" in s or "in y range" in s:
                raise Skip("fit said so")
            raise
        b, b0 = np.asarray(est.coef_, float), float(est.intercept_)
        if not np.all(np.isfinite(b)):
            raise Skip("non-finite coefficients")
        if np.abs(b * np.maximum(np.abs(X).max(0), 1e-12)).max() > 1e6:
            raise Skip("collinear unpenalised design")
        fam, link = fc.ref_for(est), fc.reflink
        wi = None if wa is None or np.ndim(wa) == 0 else wa
        det = dict(model=kind, family=fc.name, store=store, wkind=pr.wkind, step=step,
                   has_off=off is not None, special=special)

        def ok_mu(mu):
            # outside this range deviances drown in rounding
            if not np.all(np.isfinite(mu)):
                return False
            if fc.kind == "binomial":
                return mu.min() > 1e-6 and mu.max() < 1 - 1e-6
            if fam.power is not None and fam.power > 0 or fc.kind == "negbin":
                return mu.min() > 1e-7 and mu.max() < 1e7
            return True

        def quiet(f, *args, **k):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    return f(*args, **k)

        def judge_score(rows, form):
            yy, ww = y[rows], w[rows]
            oo = None if off is None else off[rows]
            r = rng.random()
            use_off = oo if r < .75 else (None if r < .9 else np.zeros(len(rows)))
            if fc.limited:
                use_off = oo
            wsel = rng.random() < .75
            ww = ww if wsel else np.ones(len(rows))
            if form == "train":
                Xa, Ya = Xs, gen.as_y_arg(rng, y)
            else:
                Xa, Ya = pr.data.take(rows).store(store), gen.as_y_arg(rng, yy)
            Wa = None if not wsel or pr.w is None else pr.w[rows]
            if rng.random() < .15 and Wa is None:
                Wa = float(rng.uniform(.5, 3))
                ww = np.full(len(rows), Wa)
            with np.errstate(all="ignore"):
                pos = ww > 0
                Xr = X[rows]
                eta = Xr @ b + b0 + (0 if use_off is None else use_off)
                mu = link.inverse(eta)
                if ww.sum() <= 0:
                    return
                m0 = np.sum(ww * yy) / ww.sum()
                ok = ok_mu(mu) and not (fc.name == "binomial/cloglog" and eta.max() > 3)
                if not ok or not np.all(fam.in_range(np.array([m0]))) or \
                        (fam.kind == "binomial" and not 0 < m0 < 1) or \
                        (fam.power is not None and fam.power >= 1 and m0 <= 0):
                    mon.event("unjudged score")
                    return
                um, u0 = fam.unit_dev(yy, mu), fam.unit_dev(yy, np.full(len(yy), m0))
                d, dn = np.sum(ww * um), np.sum(ww * u0)
                # rounding: unit deviances are differences of terms of this size
                big = np.sum(ww * (np.abs(um) + dev_mag(fam, yy, mu))) * 1e-14 * \
                    (1 + np.abs(eta).max())
                big0 = np.sum(ww * (np.abs(u0) + dev_mag(fam, yy, np.full(len(yy), m0)))) * 1e-14
            if not dn > 1e4 * big0 or not np.isfinite(d):
                mon.event("unjudged score")
                return
            got = quiet(est.score, Xa, Ya, sample_weight=Wa, offset=use_off)
            want = 1 - d / dn
            tol = 1e-9 * (1 + abs(d / dn)) + 20 * (big + big0 * abs(want - 1)) / dn
            if fc.kind in ("tweedie", "negbin"):
                tol += 1e-6 * (1 + abs(d / dn))
            mon.check(abs(got - want) <= tol, "score is not 1 - deviance / null deviance", got=got,
                      want=want, tol=tol, rows=form, offset_used=use_off is not None, **det)
            mon.check(got <= 1 + tol or fc.kind == "binomial", "score exceeds one", got=got, **det)
            mon.event("score")
            mon.state("score", fc.name, kind, store, pr.wkind, use_off is not None, form, step)
            if special == "perfect" and form == "train" and \
                    np.sum(ww > 0) >= est.coef_.size + 3:
                mon.check(abs(got - 1) < 1e-6, "score is not one at a perfect fit", got=got, **det)
                mon.event("perfect")
            if special == "null" and form == "train" and wsel and use_off is None and \
                    gen.converged(rec) and not np.any(b):
                mon.check(abs(got) < 1e-6, "score of the null model is not zero", got=got, **det)
                mon.event("null")

        for _ in range(int(rng.integers(1, 4))):
            if rng.random() < .5:
                judge_score(np.arange(n), "train")
            else:
                judge_score(rng.integers(0, n, int(rng.integers(3, n + 1))), "other")

        # ---- information criteria (fits without offset)
        if kind == "cv" or off is not None or rng.random() < .2:
            last = est
            continue
        if fc.kind == "ghs" or (fam.power is not None and (fam.power < 0 or 2 < fam.power < 3
                                                          or fam.power > 3)):
            for c in ("aic", "aicc", "bic"):
                refuse(mon, lambda: quiet(getattr(est, c), Xs, ya, wi), NotImplementedError,
                       f"{c} without a log-likelihood", **det)
            continue
        with np.errstate(all="ignore"):
            eta = X @ b + b0
            mu = link.inverse(eta)
        k = int(np.sum(np.abs(b) > 2.220446049250313e-16)) + fi
        order = [["aic", "aicc", "bic"][j] for j in rng.permutation(3)]
        if rng.random() < .5:
            order = order + [order[0]]
        if rng.random() < .2:
            rows = np.arange(n - 1)
            refuse(mon, lambda: quiet(getattr(est, order[0]),
                                      pr.data.take(rows).store(store) if kind != "formula"
                                      else Xs.iloc[:-1], y[:-1],
                                      None if pr.w is None else pr.w[:-1]),
                   ValueError, f"{order[0]} on other data than the training data", **det)
        try:
            if not ok_mu(mu) or (fc.name == "binomial/cloglog" and eta.max() > 3):
                raise Skip("means out of range")
            with np.errstate(all="ignore"):
                ll, mag = loglik(fam, y, mu, w)
            if np.abs((y - mu)[w > 0]).max() < 1e-5 * np.abs(y).max():
                raise Skip("saturated fit: residuals are rounding noise")
            if w.sum() - 1 <= 1e-2 or not np.isfinite(ll) or special == "perfect":
                raise Skip("no log-likelihood")
            near = np.any((np.abs(b) > 0) & (np.abs(b) < 1e-14))
            if near:
                raise Skip("coefficient at the zero threshold")
        except Skip as e:
            mon.event("unjudged ic: " + str(e))
            continue
        tol = 2e-11 * mag + (2e-6 * mag if fc.kind in ("tweedie", "negbin") else 0) + 1e-9
        if fam.power is not None and 1 < fam.power < 2:
            tol += 1e-6 * (1 + abs(ll))
        for c in order:
            want = -2 * ll + (2 * k if c != "bic" else np.log(n) * k)
            if c == "aicc":
                if n <= k + 1:
                    refuse(mon, lambda: quiet(est.aicc, Xs, ya, wi), ValueError,
                           "aicc with too many parameters", **det)
                    continue
                want += 2 * k * (k + 1) / (n - k - 1)
            with warnings.catch_warnings(record=True) as said:
                warnings.simplefilter("always")
                with np.errstate(all="ignore"):
                    got = getattr(est, c)(Xs, ya, wi)
            said = any("degrees of freedom" in str(m_.message) for m_ in said)
            ridge = (al[-1] if kind == "path" else a) > 0 and est.l1_ratio < 1
            mon.check(said == bool(ridge), f"{c} warns about ill-defined degrees of freedom exactly "
                      "under ridge regularisation", warned=said, alpha=al if kind == "path" else a,
                      l1_ratio=est.l1_ratio, **det)
            mon.event("warns" if ridge else "silent")
            mon.check(abs(got - want) <= 2 * tol, f"{c} is not its definition for the current fit",
                      got=got, want=want, tol=tol, k=k, n=n, **det)
            mon.event(c)
            mon.state(c, fc.name, kind, store, pr.wkind, step, a == 0)
        mon.sample({"family": fc.name, "n": n, "k": k, "model": kind, "fits": step + 1})


def dev_mag(fam, y, mu):
    """Size of the terms whose difference the unit deviance is."""
    p, k = fam.power, fam.kind
    with np.errstate(all="ignore"):
        if p == 0:
            return (np.abs(y) + np.abs(mu)) ** 2 * 1e-2 + np.abs(y - mu) * (np.abs(y) + np.abs(mu))
        if p == 1 or k == "negbin":
            return np.abs(y * np.log(np.maximum(y, 1e-300) / mu)) + y + mu
        if p == 2:
            return np.abs(np.log(mu / y)) + y / mu + 1
        if p is not None:
            return np.abs(y) ** (2 - p) + np.abs(y) * mu ** (1 - p) + mu ** (2 - p) \
                if p < 2 else y ** (2 - p) + y * mu ** (1 - p) + mu ** (2 - p)
        if k == "binomial":
            return 1.0 / np.minimum(mu, 1 - mu)
        return 1 + y * y


def refuse(mon, f, exc, what, **d):
    mon.event("refused")
    try:
        f()
    except exc:
        mon.check(True, "")
    else:
        mon.check(False, what + " was not refused", **d)


if __name__ == "__main__":
    import checks.c14 as mod
    harness.main(mod)
