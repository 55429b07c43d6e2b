"""C25: the benchmark suite (glum_benchmarks) measures what it reports."""
import contextlib
import io
import os
import sys
import tempfile
import traceback
import types
import warnings

import numpy as np

from vlib import harness, ref
from vlib.harness import Skip

PROPERTY = "C25"
RULE = ("calls of the benchmark suite's public helpers on random data judged against their "
        "definitions: reported objectives, exposure-to-weight conversions (through real fits), "
        "design matrices per storage, simulated data per seed, run-time selection under a fake "
        "clock, result names, parameter grids and regression verdicts; non-trivial = a number or "
        "verdict was judged; distinct = kind, distribution, storage, penalty, shape regime")
MINIMUM = {"quick": {"oracle": 3000, "states": 150, "kind:objective": 300, "kind:exposure": 150,
                     "kind:storage": 60, "kind:simulate": 60, "kind:runtime": 150,
                     "kind:names": 150, "kind:execute": 40, "kind:grid": 20, "kind:compare": 20},
           "thorough": {"oracle": 20000, "states": 300}}
KINDS = ["objective", "exposure", "storage", "simulate", "runtime", "names", "execute", "grid",
         "compare", "objective", "exposure", "runtime", "objective", "names"]
DISTS = ["gaussian", "poisson", "gamma", "binomial", "tweedie-p=1.5", "tweedie-p=1.2",
         "tweedie-p=1.9"]


def plan(tier, seed):
    n = 7000 if tier == "quick" else 140000
    return [{"seed": seed, "i": i} for i in range(n)]


def family(dist):
    """(reference family, reference link)"""
    if dist == "gaussian":
        return ref.RefFamily("tweedie", 0), ref.RefLink("identity")
    if dist == "binomial":
        return ref.RefFamily("binomial"), ref.RefLink("logit")
    p = {"poisson": 1, "gamma": 2}.get(dist)
    if p is None:
        p = float(np.float32(dist.split("=")[1]))
    return ref.RefFamily("tweedie", p), ref.RefLink("log")


def objective(dist, X, y, w, off, b0, b, alpha, l1):
    fam, link = family(dist)
    eta = X @ b + b0 + (0 if off is None else off)
    mu = link.inverse(eta)
    w = np.ones(len(y)) if w is None else np.asarray(w, float)
    dev = np.sum(w / w.sum() * fam.unit_dev(y, mu))
    return .5 * dev + alpha * l1 * np.sum(np.abs(b)) + .5 * alpha * (1 - l1) * np.sum(b * b)


def target(rng, dist, mu):
    if dist == "gaussian":
        return rng.normal(mu)
    if dist == "binomial":
        return (rng.random(len(mu)) < mu).astype(float)
    if dist == "poisson":
        return rng.poisson(mu).astype(float)
    y = rng.gamma(2.0, mu / 2.0) + 1e-6
    if dist.startswith("tweedie"):
        y[rng.random(len(y)) < .3] = 0.0
    return y


def draw(rng, dist, n=None, k=None):
    n = n or int(rng.choice([3, 10, 50]))
    k = k or int(rng.choice([1, 2, 5]))
    X = rng.normal(size=(n, k)) * rng.choice([.3, 1.0])
    if rng.random() < .4:
        X[rng.random((n, k)) < .6] = 0
    _, link = family(dist)
    b = rng.normal(size=k) * .5
    off = rng.normal(size=n) * .5 if rng.random() < .5 else None
    mu = link.inverse(X @ b + .2 + (0 if off is None else off))
    y = target(rng, dist, mu)
    w = rng.uniform(.2, 3, n) if rng.random() < .6 else None
    if w is not None and rng.random() < .3:
        w = rng.integers(1, 5, n).astype(float)
    return X, y, w, off


def run_case(case, mon):
    rng = harness.rng_for("C25", case["seed"], case["i"])
    kind = KINDS[case["i"] % len(KINDS)]
    keep = dict(os.environ), os.getcwd()
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            os.chdir(harness.REPO)     # the suite locates its data through git
            globals()["k_" + kind](rng, mon, case)
    except (KeyError, IndexError, AttributeError, TypeError) as e:
        if any("glum_benchmarks" in f.filename for f in traceback.extract_tb(e.__traceback__)):
            raise
        mon.violation("a result lacks a documented part or has another form",
                      error=repr(e)[:300], kind=kind)
    finally:
        os.environ.clear()
        os.environ.update(keep[0])
        os.chdir(keep[1])
    mon.event("kind:" + kind)


def k_objective(rng, mon, case):
    import pandas as pd
    import tabmat as tm
    from scipy import sparse as sps

    from glum_benchmarks.util import get_obj_val
    dist = str(rng.choice(DISTS))
    X, y, w, off = draw(rng, dist)
    k = X.shape[1]
    b, b0 = rng.normal(size=k), float(rng.normal())
    b[rng.random(k) < .3] = 0
    alpha = float(rng.choice([0.0, 1e-4, .01, 1.0, 7.5]))
    l1 = float(rng.choice([0.0, .3, .5, 1.0]))
    store = str(rng.choice(["ndarray", "frame", "csc", "csr", "dense", "sparse", "split"]))
    Xs = {"ndarray": lambda: X.copy(), "frame": lambda: pd.DataFrame(X),
          "csc": lambda: sps.csc_matrix(X), "csr": lambda: sps.csr_matrix(X),
          "dense": lambda: tm.DenseMatrix(X.copy()),
          "sparse": lambda: tm.SparseMatrix(sps.csc_matrix(X)),
          "split": lambda: tm.from_csc(sps.csc_matrix(X), .5)}[store]()
    dat = {"X": Xs, "y": y.copy()}
    if rng.random() < .3 and np.all(y == np.round(y)):
        dat["y"] = y.astype(np.int64)
    name = None
    if w is not None:
        name = str(rng.choice(["sample_weight", "sample_weight", "weights"]))
        dat[name] = w.copy()
    if off is not None:
        dat["offset"] = off.copy()
    # objectives are reported up to a constant of the data: judge differences
    b2, b02 = (np.zeros(k), 0.0) if rng.random() < .5 else (rng.normal(size=k), float(rng.normal()))
    l12, alpha2 = (l1, alpha) if rng.random() < .5 else (.25, .5)
    got = get_obj_val(dat, dist, alpha, l1, b0, b.copy()) - \
        get_obj_val(dat, dist, alpha2, l12, b02, b2.copy())
    want = objective(dist, X, y, w, off, b0, b, alpha, l1)
    other = objective(dist, X, y, w, off, b02, b2, alpha2, l12)
    mag, want = abs(want) + abs(other), want - other
    mon.close(got, want, "the reported objective is not the penalised objective",
              rtol=0, atol=(2e-6 if dist.startswith("tweedie") else 1e-9) * (1 + mag),
              dist=dist, store=store,
              alpha=alpha, l1=l1, weights=name, offset=off is not None)
    mon.check(np.array_equal(np.asarray(dat["y"], float), y)
              and (w is None or np.array_equal(dat[name], w))
              and (off is None or np.array_equal(dat["offset"], off)),
              "computing the objective changed the data", dist=dist)
    mon.state("objective", dist, store, alpha > 0, l1, name, off is not None, len(y) > k)


def k_exposure(rng, mon, case):
    from glum import GeneralizedLinearRegressor, TweedieDistribution

    from glum_benchmarks.util import exposure_and_offset_to_weights
    dist = str(rng.choice([d for d in DISTS if d not in ("gaussian", "binomial")]))
    power = {"poisson": 1, "gamma": 2}.get(dist) or float(dist.split("=")[1])
    if rng.random() < .1:
        power = 0
    X, y, w, _ = draw(rng, dist, n=int(rng.choice([25, 60])), k=2)
    n = len(y)
    expo = rng.uniform(.2, 3, n)
    if rng.random() < .5:
        expo = np.exp(rng.normal(size=n))
    form = str(rng.choice(["exposure", "offset"]))
    kw = {"exposure": expo} if form == "exposure" else {"offset": np.log(expo)}
    if w is not None:
        kw["sample_weight"] = w
    src = [a.copy() for a in (y, expo)]
    as_ = [lambda v: v, lambda v: v, list, lambda v: np.asarray(v).tolist()][rng.integers(4)]
    y2, w2 = exposure_and_offset_to_weights(power, as_(y),
                                            **{k: as_(v) for k, v in kw.items()})
    wv = np.ones(n) if w is None else w
    mon.close(y2, y / expo, "converted outcomes are not outcomes per exposure", rtol=1e-10,
              atol=1e-12, form=form)
    mon.close(w2, wv * expo ** (2 - power), "converted weights are not weights times exposure to "
              "the power 2 - p", rtol=1e-10, atol=1e-12, form=form, power=power)
    mon.check(np.array_equal(src[0], y) and np.allclose(src[1], expo, rtol=0, atol=0),
              "the conversion changed its input")
    # the same first-order conditions at any coefficients
    b, b0 = rng.normal(size=2), float(rng.normal())
    Z = np.c_[np.ones(n), X]
    m1 = np.exp(Z @ np.r_[b0, b] + np.log(expo))
    m2 = np.exp(Z @ np.r_[b0, b])
    y2, w2 = np.asarray(y2), np.asarray(w2)
    s1 = Z * (wv * (y - m1) * m1 ** (1 - power))[:, None]
    s2 = Z * (w2 * (y2 - m2) * m2 ** (1 - power))[:, None]
    mon.close(s2, s1, "the converted problem has another score", rtol=1e-8,
              atol=1e-9 * float(np.abs(s1).max() + 1), power=power)
    if rng.random() < .5 and power > 0:
        fam = TweedieDistribution(power)
        a = dict(family=fam, link="log", alpha=0.0, gradient_tol=1e-9, max_iter=300)
        if np.sum(y > 0) < 6:
            raise Skip("too few positive outcomes")
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter("always")
            f1 = GeneralizedLinearRegressor(**a).fit(X, y, sample_weight=w, offset=np.log(expo))
            f2 = GeneralizedLinearRegressor(**a).fit(X, y2, sample_weight=w2)
        if any("onverge" in str(m.message) for m in said):
            raise Skip("not converged")
        H = Z.T @ (Z * (wv * m1 ** 0)[:, None])
        if np.linalg.cond(H) > 1e4:
            raise Skip("ill-conditioned")
        mon.close(np.r_[f2.intercept_, f2.coef_], np.r_[f1.intercept_, f1.coef_],
                  "fitting with an offset and with converted weights gives different models",
                  rtol=1e-4, atol=1e-5, power=power)
        mon.event("fits")
    mon.state("exposure", dist, power == 0, form, w is not None)


def dense(X):
    import pandas as pd
    from scipy import sparse as sps
    if isinstance(X, pd.DataFrame):
        return X.to_numpy(dtype=float)
    if sps.issparse(X):
        return X.toarray()
    if hasattr(X, "A"):
        return np.asarray(X.A if not callable(X.A) else X.A(), float)
    return np.asarray(X, float)


def k_storage(rng, mon, case):
    import pandas as pd

    from glum_benchmarks.problems import load_data
    n = int(rng.integers(12, 60))
    cats = int(rng.integers(0, 3))
    Xp = {}
    for j in range(int(rng.integers(1, 4))):
        v = rng.normal(rng.normal() * 3, rng.uniform(.5, 4), n)
        if rng.random() < .4:
            v = rng.integers(0, rng.choice([2, 3, 6]), n).astype(float)
            v[:2] = [0, 1]
        Xp[f"x{j}"] = v
    codes = {}
    for j in range(cats):
        g = int(rng.integers(2, 5))
        c = rng.integers(0, g, n)
        c[:g] = np.arange(g)
        codes[f"c{j}"] = (c, g)
        Xp[f"c{j}"] = pd.Categorical.from_codes(c, [f"l{q}" for q in range(g)])
    order = list(rng.permutation(list(Xp)))
    frame = pd.DataFrame({c: Xp[c] for c in order})
    copy = frame.copy()
    expo = rng.uniform(.3, 3, n)
    y = rng.poisson(1.0, n) / expo

    def loader(num_rows=None, noise=None, distribution=None):
        return frame, y.copy(), expo.copy()

    std = bool(rng.random() < .6)
    store = str(rng.choice(["dense", "csr", "csc", "cat", "split0.1", "split0.9"]))
    setup = str(rng.choice(["no-weights", "weights", "offset"]))
    dist = str(rng.choice(["poisson", "gaussian", "gamma", "tweedie-p=1.5", "binomial"]))
    fun = getattr(load_data, "func", load_data)
    if rng.random() < .2:
        try:
            fun(loader, storage=store, distribution=dist,
                data_setup=str(rng.choice(["exposure", "weight", "", "both"])))
            mon.violation("an unknown data setup was accepted")
        except (NotImplementedError, ValueError):
            mon.oracle += 1
    dat = fun(loader, storage=store, data_setup=setup, distribution=dist, standardize=std)
    want = []
    for c in order:
        if c in codes:
            cc, g = codes[c]
            oh = np.eye(g)[cc]
            want.append(oh if store == "cat" else oh[:, 1:])
        else:
            v = np.asarray(Xp[c], float)
            if std and len(np.unique(v)) > 2:
                v = (v - v.mean()) / v.std()
            want.append(v[:, None])
    want = np.hstack(want)
    got = dense(dat["X"])
    form = getattr(dat["X"], "format", None)
    mon.check(form == store if store in ("csr", "csc") else form is None,
              "the design is not stored as requested", store=store, got=str(type(dat["X"])))
    mon.check(got.shape == want.shape, "the loaded design has another shape", got=got.shape,
              want=want.shape, store=store)
    if got.shape == want.shape:
        mon.close(got, want, "the loaded design differs from its columns", rtol=1e-9, atol=1e-9,
                  store=store, order=order, standardize=std)
    pd.testing.assert_frame_equal(frame, copy)
    p = {"poisson": 1, "gamma": 2, "gaussian": 0, "binomial": None}.get(dist, 1.5)
    if setup == "no-weights":
        mon.close(dat["y"], y, "the target was changed", rtol=0, atol=0)
        mon.check(set(dat) == {"X", "y"}, "unexpected parts in the data", got=sorted(dat))
    elif setup == "offset":
        mon.close(dat["offset"], np.log(expo), "the offset is not the log exposure", rtol=1e-12)
        mon.close(dat["y"], y * expo, "offset problems model totals", rtol=1e-12)
    elif dist in ("gaussian", "binomial"):
        mon.close(dat["sample_weight"], expo, "weights are not the exposure", rtol=1e-12)
        mon.close(dat["y"], y, "the target was changed", rtol=0, atol=0)
    else:
        mon.close(dat["sample_weight"], expo ** (2 - p), "weights are not exposure ** (2 - p)",
                  rtol=1e-12, dist=dist)
        mon.close(dat["y"], y, "the target was changed", rtol=1e-12)
    mon.state("storage", store, setup, dist, std, cats)


def k_simulate(rng, mon, case):
    import pandas as pd

    from glum_benchmarks.data import simulate_glm_dataset, simulate_mixed_data
    if rng.random() < .6:
        fam = str(rng.choice(["poisson", "normal", "gamma", "binomial", "tweedie_p=1.5"]))
        kw = dict(family=fam, n_rows=int(rng.integers(20, 80)),
                  dense_features=int(rng.integers(1, 5)), sparse_features=int(rng.integers(0, 4)),
                  sparse_density=.3, categorical_features=int(rng.integers(1, 3)),
                  categorical_levels=int(rng.integers(2, 5)),
                  ohe_categorical=bool(rng.random() < .5),
                  drop_first=bool(rng.random() < .5), random_seed=int(rng.integers(1, 1000)))
        if fam == "gamma":
            kw["intercept"] = 1.0
        a = simulate_mixed_data(**kw)
        np.random.seed(int(rng.integers(1 << 30)))   # an unrelated use of the global generator
        b = simulate_mixed_data(**kw)
        for part in ("X", "y", "sample_weight", "offset", "coefs"):
            u, v = a[part], b[part]
            same = u.equals(v) if hasattr(u, "equals") else np.array_equal(u, v)
            mon.check(same, "simulated data are not reproducible from their seed", part=part,
                      family=fam, sparse=kw["sparse_features"])
        n = kw["n_rows"]
        mon.check(len(a["X"]) == n and len(a["y"]) == n and len(a["sample_weight"]) == n
                  and len(a["offset"]) == n, "simulated data of another length")
        if kw["ohe_categorical"]:
            mon.check(list(a["X"].columns) == list(a["coefs"].index),
                      "coefficients are not labelled like the columns")
        c = simulate_mixed_data(**dict(kw, random_seed=kw["random_seed"] + 1))
        mon.check(not np.array_equal(a["offset"], c["offset"]), "the seed is ignored")
        mon.state("simulate", fam, kw["sparse_features"] > 0, kw["categorical_features"],
                  kw["ohe_categorical"], kw["drop_first"])
    else:
        dist = str(rng.choice(["gaussian", "poisson", "gamma", "binomial"]))
        n, r = int(rng.integers(10, 60)), float(rng.choice([.05, .5, 1.0, 2.0]))
        X, y, e = simulate_glm_dataset(num_rows=n, distribution=dist, k_over_n_ratio=r)
        X2, y2, _ = simulate_glm_dataset(num_rows=n, distribution=dist, k_over_n_ratio=r)
        pd.testing.assert_frame_equal(X, X2)
        mon.check(np.array_equal(y, y2), "simulated data are not reproducible", dist=dist)
        mon.check(X.shape == (n, max(1, int(round(n * r)))) and len(y) == n and np.all(e == 1),
                  "simulated design of another shape", got=X.shape)
        fam, _ = family(dist)
        mon.check(bool(np.all(fam.in_range(np.asarray(y, float)))),
                  "simulated outcomes outside the family's range", dist=dist)
        mon.state("simulate-glm", dist, r)


def alarms(rng, mon):
    """Real time limits: enforced, and nothing is left pending afterwards."""
    import signal
    import time

    import glum_benchmarks.util as u

    def other(signum, frame):
        raise RuntimeError("not the handler of this run")
    keep = signal.signal(signal.SIGALRM, other)
    slow = bool(rng.random() < .5)
    try:
        t0 = time.time()
        try:
            u.runtime(lambda: time.sleep(20 if slow else 0), 1, timeout=1 if slow else 30)
            late = False
        except TimeoutError:
            late = True
        mon.check(late == slow and time.time() - t0 < 15, "the time limit of a run is not enforced",
                  slow=slow, timed_out=late)
        left, now = signal.alarm(0), signal.getsignal(signal.SIGALRM)
        mon.check(left == 0 and now is other, "a time limit is left pending after the run",
                  seconds=left, handler=repr(now))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, keep)
    mon.event("alarm")


def k_runtime(rng, mon, case):
    if case["i"] % 20 == 0 or rng.random() < .03:
        return alarms(rng, mon)
    import glum_benchmarks.util as u
    n = int(rng.integers(1, 8))
    dur = np.round(rng.uniform(.1, 9, n), 3)
    if rng.random() < .3:
        dur[:] = np.round(rng.choice(dur, n), 3)
    fail = rng.random(n) < rng.choice([0, 0, .3, 1])
    clock, calls = [100.0], []

    def f(a, b=None):
        i = len(calls)
        calls.append((a, b))
        clock[0] += dur[i]
        if fail[i]:
            raise TimeoutError("late")
        return ("out", i)

    def tick():
        return clock[0]

    fake = types.SimpleNamespace(time=tick, perf_counter=tick, monotonic=tick, process_time=tick,
                                 sleep=lambda s: None)
    real = u.time
    u.time = fake if isinstance(real, types.ModuleType) else tick
    try:
        try:
            rt, out = u.runtime(f, n, 1, b=2)
        except TimeoutError:
            mon.check(bool(fail.all()), "a run that succeeded was reported as timed out",
                      fail=fail.tolist())
            mon.event("all timed out")
            mon.state("runtime", n, "timeout")
            return
    finally:
        u.time = real
    mon.check(not fail.all(), "only timeouts and yet a run time", n=n)
    mon.check(len(calls) == n and set(calls) == {(1, 2)}, "the function was not called once per "
              "iteration with its arguments", got=len(calls), want=n)
    ok = [i for i in range(n) if not fail[i]]
    meas = ok[1:] if len(ok) > 1 else ok
    med = float(np.median(dur[meas]))
    best = min(abs(dur[i] - med) for i in meas)
    i = out[1]
    mon.check(i in meas, "the reported run is the warm-up or a failed one", got=i, want=meas)
    mon.close(rt, dur[i], "run time and output belong to different runs", rtol=1e-9, atol=1e-9)
    mon.check(abs(abs(rt - med) - best) < 1e-9, "the reported run is not the one closest to the "
              "median", got=rt, median=med, runs=dur[meas].tolist())
    mon.state("runtime", n, len(ok), len(set(dur.tolist())))


def k_names(rng, mon, case):
    from glum_benchmarks.problems import get_all_problems
    from glum_benchmarks.util import (BenchmarkParams, get_params_from_fname, get_sklearn_family,
                                      get_tweedie_p)
    probs = get_all_problems()
    name = str(rng.choice(sorted(probs)))
    v = dict(problem_name=name, library_name=str(rng.choice(["glum", "sklearn", "zeros"])),
             num_rows=int(rng.integers(1, 10 ** 6)),
             k_over_n_ratio=float(rng.choice([.5, 1.0, 3.0, float(rng.uniform())])),
             storage=str(rng.choice(["dense", "cat", "csr", "split0.1", "auto"])),
             threads=int(rng.integers(1, 64)), alpha=float(10 ** rng.uniform(-12, 3)),
             hessian_approx=float(rng.choice([0.0, .1, 1e-7])),
             diagnostics_level=str(rng.choice(["basic", "full", "none"])))
    for k in list(v):
        if k not in ("problem_name", "library_name") and rng.random() < .2:
            v[k] = None
    p = BenchmarkParams(**v)
    fn = p.get_result_fname() + (".pkl" if rng.random() < .7 else "")
    q = get_params_from_fname(fn)
    for k in v:
        mon.check(getattr(q, k) == v[k] and type(getattr(q, k)) is type(v[k]),
                  "parameters do not survive the round trip through the file name", part=k,
                  got=getattr(q, k), want=v[k], fname=fn)
    r = BenchmarkParams(**v)
    ch = str(rng.choice([k for k in v if k != "problem_name"]))
    r.update_params(**{ch: "other"})
    mon.check(getattr(r, ch) == "other" and all(getattr(r, k) == v[k] for k in v if k != ch),
              "update_params changed something else", part=ch)
    try:
        BenchmarkParams().update_params(nonsense=1)
        mon.violation("an unknown benchmark parameter was accepted")
    except (AssertionError, ValueError, TypeError, AttributeError, KeyError):
        mon.oracle += 1
    P = probs[name]
    parts = name.split("-")
    reg = {"l2": 0.0, "net": .5, "lasso": 1.0}[[x for x in parts if x in ("l2", "net", "lasso")][0]]
    mon.check(P.l1_ratio == reg, "a problem's l1_ratio is not what its name says", name=name,
              got=P.l1_ratio)
    mon.check(name.endswith("-" + P.distribution), "a problem's distribution is not what its name "
              "says", name=name, got=P.distribution)
    if P.distribution != "binomial":
        want = {"gaussian": 0, "poisson": 1, "gamma": 2}.get(P.distribution, 1.5)
        mon.check(get_tweedie_p(P.distribution) == want, "wrong Tweedie power",
                  dist=P.distribution)
    f = get_sklearn_family(P.distribution)
    mon.check(f == {"gaussian": "normal"}.get(P.distribution, P.distribution)
              if isinstance(f, str) else abs(f.power - 1.5) < 1e-6, "wrong family",
              dist=P.distribution, got=str(f))
    mon.state("names", parts[0], reg, P.distribution, *[v[k] is None for k in v])
    if "simulated" in name:
        # the data a problem loads are those of the distribution it is named after
        from glum_benchmarks.data import simulate_categorical_dataset, simulate_glm_dataset
        pl, kw = P.data_loader, dict(num_rows=int(rng.integers(10, 40)), standardize=False)
        if name.startswith("simulated-glm"):
            kr = float(rng.choice([.1, 1.0, 2.0]))
            X, y, _ = simulate_glm_dataset(kw["num_rows"], None, P.distribution, kr)
            kw["k_over_n_ratio"] = kr
        else:
            X, y, _ = simulate_categorical_dataset(kw["num_rows"], None, P.distribution)
        fun = getattr(pl, "func", pl)
        fun = getattr(fun, "func", fun)   # past the cache on disk
        dat = fun(*getattr(pl, "args", ()), **dict(getattr(pl, "keywords", {}), **kw))
        mon.check(np.array_equal(np.asarray(dat["y"]), np.asarray(y)) and set(dat) == {"X", "y"},
                  "a problem loads data of another distribution or setup", name=name,
                  got=sorted(dat))
        num = X.select_dtypes("number").to_numpy()
        got = dense(dat["X"])
        mon.check(len(got) == len(X) and np.array_equal(got[:, :num.shape[1]], num),
                  "a problem loads another design", name=name)
        mon.event("problem-loaded")


def k_execute_own(rng, mon, case):
    """A problem of our own (with weights or offsets) through the real driver."""
    import glum_benchmarks.problems as probs
    from glum_benchmarks.util import BenchmarkParams, execute_problem_library, get_obj_val
    dist = str(rng.choice(["gaussian", "poisson", "gamma", "tweedie-p=1.5"]))
    X, y, w, off = draw(rng, dist, n=int(rng.choice([30, 60])), k=int(rng.choice([1, 3])))
    dat = dict(X=X, y=y)
    if w is not None:
        dat["sample_weight"] = w
    elif off is not None:
        dat["offset"] = off
    else:
        w = rng.uniform(.2, 3, len(y))
        dat["sample_weight"] = w
    off = dat.get("offset")
    l1 = float(rng.choice([0.0, .5, 1.0]))
    default = float(rng.choice([.01, .3]))
    alpha = None if rng.random() < .3 else float(rng.choice([.002, .05, .7]))
    seen = []

    def loader(**k):
        seen.append(k)
        return {a: b.copy() for a, b in dat.items()}
    real = probs.get_all_problems
    probs.get_all_problems = lambda: {"own": probs.Problem(
        data_loader=loader, distribution=dist, alpha=default, l1_ratio=l1)}
    try:
        par = BenchmarkParams(problem_name="own", library_name="glum", num_rows=len(y),
                              storage="dense", threads=1, alpha=alpha)
        res, used = execute_problem_library(par, iterations=1, diagnostics_level=None)
    finally:
        probs.get_all_problems = real
    a = default if alpha is None else alpha
    if alpha is None:
        from glum_benchmarks.util import defaults
        a = defaults["alpha"] if defaults["alpha"] is not None else default
    mon.check(used == a, "another alpha was used than asked for", got=used, want=a)
    # the weights' mean rescales the penalty; the objective normalises the weights
    eff = a if w is None or "sample_weight" not in dat else a / dat["sample_weight"].mean()
    ws = dat.get("sample_weight")
    b, b0 = np.asarray(res["coef"], float), float(res["intercept"])
    _, link = family(dist)
    with np.errstate(all="ignore"):
        want = objective(dist, X, y, ws, off, b0, b, eff, l1)
        zero = objective(dist, X, y, ws, off, 0.0, 0 * b, eff, l1)
    if not np.isfinite(want) or not np.isfinite(zero):
        mon.event("unjudged")
        return
    base = get_obj_val(dat, dist, eff, l1, 0.0, np.zeros(len(b)))
    mon.close(res["obj_val"] - base, want - zero, "the reported objective is not the objective at the "
              "penalty that was asked for", rtol=0, atol=1e-8 * (1 + abs(want) + abs(zero)),
              weights=ws is not None, dist=dist, alpha=alpha)
    # the coefficients are those of the penalty the objective is reported for
    for _ in range(4):
        d = rng.normal(size=len(b)) * .03
        o = objective(dist, X, y, ws, off, b0, b + d, eff, l1)
        mon.check(not o < want - 1e-4 * (1 + abs(want)), "the model was fitted at another penalty "
                  "than its objective is reported for", at=want, near=o, dist=dist, alpha=alpha)
    o = objective(dist, X, y, ws, off, b0, .9 * b, eff, l1)
    mon.check(not o < want - 1e-4 * (1 + abs(want)), "the model was fitted at another penalty "
              "than its objective is reported for", at=want, shrunk=o, dist=dist, alpha=alpha)
    mon.event("own problem")
    mon.state("own", dist, l1, alpha, ws is not None)


def k_execute(rng, mon, case):
    if rng.random() < .5:
        return k_execute_own(rng, mon, case)
    from glum_benchmarks.problems import get_all_problems
    from glum_benchmarks.util import BenchmarkParams, execute_problem_library, get_obj_val
    dist = str(rng.choice(["gaussian", "poisson", "gamma", "binomial"]))
    pen = str(rng.choice(["l2", "net", "lasso"]))
    data = str(rng.choice(["simulated-glm", "simulated-glm", "intermediate-housing"]))
    if data == "intermediate-housing" and not os.path.exists("data/housing.parquet"):
        data = "simulated-glm"
    if data == "intermediate-housing" and dist == "poisson":
        dist = "gaussian"
    setup = "no-weights"
    if data == "intermediate-housing" and rng.random() < .4:
        setup = "offset"
    name = f"{data}-{setup}-{pen}-{dist}"
    n = int(rng.choice([40, 80]))
    ratio = float(rng.choice([.05, .1]))
    alpha = None if rng.random() < .25 else float(rng.choice([.001, .01, .1, 1.0]))
    libs = ["glum", "zeros"] + (["sklearn"] if setup == "no-weights" and
                                (pen == "l2" or dist in ("gaussian", "binomial")) else [])
    P = get_all_problems()[name]
    a = .001 if alpha is None else alpha
    objs = {}
    std = bool(data != "intermediate-housing" or rng.random() < .9)
    dat = P.data_loader(num_rows=n, k_over_n_ratio=ratio, storage="dense", standardize=std)
    X, y, off = dense(dat["X"]), np.asarray(dat["y"], float), dat.get("offset")
    l1 = {"l2": 0.0, "net": .5, "lasso": 1.0}[pen]
    for lib in libs:
        par = BenchmarkParams(problem_name=name, library_name=lib, num_rows=n,
                              k_over_n_ratio=ratio, storage="dense", threads=1, alpha=alpha)
        res, used = execute_problem_library(par, iterations=1, diagnostics_level=None,
                                            standardize=std)
        if not res:
            mon.event("skipped by " + lib)
            continue
        mon.check(used == a, "another alpha was used than asked for", got=used, want=a)
        mon.check(res["num_rows"] == n, "num_rows is not the number of rows", got=res["num_rows"])
        b, b0 = np.asarray(res["coef"], float), float(res["intercept"])
        fam, link = family(dist)
        with np.errstate(all="ignore"):
            mu = link.inverse(X @ b + b0 + (0 if off is None else off))
            zero = objective(dist, X, y, None, off, 0.0, 0 * b, a, l1)
            want = objective(dist, X, y, None, off, b0, b, a, l1)
        base = get_obj_val(dat, dist, a, l1, 0.0, np.zeros(len(b)))
        if not np.isfinite(want) or not np.all(np.isfinite(mu)):
            mon.event("unjudged")
            continue
        mon.close(res["obj_val"] - base, want - zero, "the reported objective is not the objective at the "
                  "penalty that was asked for", rtol=0, atol=1e-8 * (1 + abs(want) + abs(zero)), lib=lib,
                  name=name, alpha=alpha)
        objs[lib] = want
        mon.state("execute", lib, name, alpha)
    if "glum" in objs:
        for lib, v in objs.items():
            mon.check(objs["glum"] <= v + 2e-3 * (1 + abs(v)), "another library reports a better "
                      "objective than glum", lib=lib, glum=objs["glum"], other=v, name=name,
                      alpha=a)


def k_grid(rng, mon, case):
    from pathlib import Path

    from glum_benchmarks import config as C
    from glum_benchmarks.problems import get_all_problems
    from glum_benchmarks.run_benchmarks import get_benchmark_combinations
    from glum_benchmarks.util import get_all_libraries
    probs, libs = get_all_problems(), list(get_all_libraries())

    def sub(vals, p=.5):
        vals = list(vals)
        if rng.random() < .25:
            return None
        return [vals[j] for j in rng.permutation(len(vals))[:int(rng.integers(1, 4))]]

    entries, want = [], set()
    for _ in range(int(rng.integers(1, 4))):
        e = dict(libraries=sub(["glum", "sklearn", "zeros", "h2o"]),
                 datasets=sub(C.ALLOWED_DISTRIBUTIONS_BY_DATASET),
                 regularizations=sub(["lasso", "l2", "net", "monotonic-l2"]),
                 alphas=sub([.001, .01, .1]), num_rows=sub([None, 100, 2000]),
                 k_over_n_ratios=sub([.5, 1.0, 2.0]),
                 distributions=sub(["gaussian", "gamma", "binomial", "poisson", "tweedie-p=1.5"]))
        entries.append(C.ParamGridEntry(**e))
        for name, P in probs.items():
            if "-no-weights-" not in name:
                continue
            ds, rest = name.split("-no-weights-")
            reg = rest[:-len(P.distribution) - 1]
            if e["datasets"] is not None and ds not in e["datasets"]:
                continue
            if e["regularizations"] is not None and reg not in e["regularizations"]:
                continue
            if e["distributions"] is not None and P.distribution not in e["distributions"]:
                continue
            allow = C.ALLOWED_DISTRIBUTIONS_BY_DATASET.get(ds)
            if allow is not None and P.distribution not in allow:
                continue
            for lib in e["libraries"] or [q for q in libs if q != "zeros"]:
                if lib not in libs:
                    continue
                for al in e["alphas"] or list(C.ALPHA_VALUES):
                    for nr in e["num_rows"] or [None]:
                        for kn in (e["k_over_n_ratios"] or [1.0]) if ds == "simulated-glm" \
                                else [1.0]:
                            want.add((name, lib, al, nr, kn))
    cfg = C.BenchmarkConfig(param_grid=entries, script_dir=Path("."))
    got = get_benchmark_combinations(cfg)
    mon.check(len(got) == len(set(got)), "a benchmark is run twice")
    mon.check(set(got) == want, "the benchmark grid is not the union of its entries' products",
              missing=[str(x) for x in sorted(want - set(got), key=str)[:3]],
              extra=[str(x) for x in sorted(set(got) - want, key=str)[:3]])
    mon.state("grid", len(entries), len(want) > 0, *[e.libraries is None for e in entries])


def k_compare(rng, mon, case):
    import pandas as pd

    from glum_benchmarks import compare_results
    d = tempfile.mkdtemp(prefix="c25_")
    try:
        m = int(rng.integers(1, 6))
        rel, ab, cases = float(rng.choice([.1, .15, .5])), float(rng.choice([.01, .05])), \
            int(rng.integers(0, 2))
        rows = [(f"p{j}", str(rng.choice(["glum", "sklearn"])), 100, .01) for j in range(m)]
        base = np.round(rng.uniform(.02, 1, m), 4)
        if rng.random() < .2:
            base[0] = 0.0
        head = np.round(base * rng.uniform(.7, 1.8, m) + rng.choice([0, .1]), 4)
        keys = ["problem_name", "library_name", "num_rows", "alpha"]
        B = pd.DataFrame(rows, columns=keys).assign(runtime=base)
        H = pd.DataFrame(rows, columns=keys).assign(runtime=head).iloc[rng.permutation(m)]
        keepers = rng.random(m) < .85
        H = H[[keepers[int(s[1:])] for s in H["problem_name"]]]
        B.to_csv(f"{d}/b.csv", index=False)
        H.to_csv(f"{d}/h.csv", index=False)
        with open(f"{d}/c.yaml", "w") as fh:
            fh.write(f"max_rel_slowdown: {rel}\nmax_abs_slowdown_sec: {ab}\n"
                     f"max_regressed_cases: {cases}\n")
        bad = edge = 0
        for j in range(m):
            if keepers[j]:
                dl = head[j] - base[j]
                r = dl / base[j] if base[j] else (np.inf if dl > 0 else 0)
                bad += bool(r > rel and dl > ab)
                edge += bool(abs(r - rel) < 1e-9 or abs(dl - ab) < 1e-9)
        if edge:
            raise Skip("on the threshold")
        argv = sys.argv
        sys.argv = ["compare", "--base", f"{d}/b.csv", "--head", f"{d}/h.csv", "--config",
                    f"{d}/c.yaml", "--summary-out", f"{d}/o.md"]
        try:
            rc = compare_results.main()
        finally:
            sys.argv = argv
        mon.check(int(bool(rc)) == int(bad > cases), "wrong regression verdict", got=rc,
                  regressed=bad, allowed=cases, rel=rel, abs=ab, base=base.tolist(),
                  head=head.tolist())
        text = open(f"{d}/o.md").read()
        mon.check(text.count("| yes") == bad, "regressed cases are not the ones listed",
                  listed=text.count("| yes"), want=bad)
        mon.state("compare", m, bad, cases, bool(keepers.all()))
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


if __name__ == "__main__":
    import checks.c25 as mod
    harness.main(mod)
