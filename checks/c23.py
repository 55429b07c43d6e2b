"""C23: concurrent use of separate estimators equals sequential use.

Every case runs the same list of calls per thread twice: one thread after the
other, and all threads at once behind a barrier with a tiny GIL switch interval
and a line-level monitor on glum's own frames that records thread switches and
yields the GIL at random places."""
import hashlib
import os
import sys
import threading
import time

import numpy as np

from vlib import gen, harness
from vlib.harness import Skip

PROPERTY = "C23"
RULE = ("2-6 Python threads fitting, predicting, scoring and inspecting separate estimators that "
        "share X, y, weights, offsets, penalties, families and links, or predicting with one fitted "
        "estimator, over all storage kinds, families, solvers, categorical frames, formulas, "
        "alpha_search and CV; GIL yields injected at random lines of glum; every result compared "
        "with its sequential twin; non-trivial = calls compared; distinct = interleavings of glum "
        "lines (hash of the switch sequence) plus workload kind")
MINIMUM = {"quick": {"oracle": 2500, "states": 150, "calls": 1500, "switches": 5000},
           "thorough": {"oracle": 20000, "states": 1000}}
ASSUMPTIONS = ["kernels run with one OpenMP thread here, so that sequential results are exactly "
               "reproducible; C22 covers the thread count",
               "interleavings are sampled, not enumerated",
               "a result that differs by more than rounding but equals one of five sequential "
               "repetitions (memory-alignment effects in BLAS) is not judged"]
BUDGET = {"quick": 400, "thorough": 3000}
SRC = os.path.join(harness.REPO, "src", "glum")


def plan(tier, seed):
    n = 500 if tier == "quick" else 6000
    return [{"seed": seed, "i": i} for i in range(n)]


class Tracer:
    """Line monitor of glum frames: yields at random, records who ran when."""

    def __init__(self, seed, rate):
        self.seed, self.rate = seed, rate
        self.last = None
        self.hash = hashlib.sha256()
        self.switches = self.lines = 0

    def install(self, tid):
        rnd = np.random.default_rng([self.seed, tid])
        st = {"k": 0, "next": int(rnd.integers(1, self.rate))}
        code_ok = {}

        def line(frame, event, arg):
            self.lines += 1
            if self.last != tid:
                self.last = tid
                self.switches += 1
                self.hash.update(f"{tid}:{frame.f_code.co_name}:{frame.f_lineno};".encode())
            st["k"] += 1
            if st["k"] >= st["next"]:
                st["k"], st["next"] = 0, int(rnd.integers(1, self.rate))
                time.sleep(0 if rnd.random() < .6 else 2e-5)
            return line

        def call(frame, event, arg):
            c = frame.f_code
            ok = code_ok.get(c)
            if ok is None:
                ok = code_ok[c] = c.co_filename.startswith(SRC)
            return line if ok else None

        sys.settrace(call)


def arrays(v):
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        return np.r_[v.to_numpy(dtype=float).ravel(), 0.0]
    if isinstance(v, (list, tuple)):
        return np.concatenate([np.atleast_1d(arrays(x)).ravel() for x in v]) if len(v) else np.zeros(0)
    if isinstance(v, dict):
        return arrays([v[k] for k in sorted(v)])
    if hasattr(v, "_asdict"):
        return arrays(list(v))
    return np.asarray(v, float).ravel()


def build(case, rng):
    """(list of per-thread programs, shared objects to watch, tag)."""
    import glum
    nt = int(rng.integers(2, 7))
    kind = str(rng.choice(["separate", "separate", "shared-family", "predict-one", "predict-one",
                           "frames", "formula", "cv", "path", "same-class-mix"]))
    n = int(rng.choice([25, 40, 120, 400]))
    cats = {"frames": 1, "formula": 1, "predict-one": int(rng.random() < .6)}.get(kind, 0)
    pb = gen.make_problem(rng, n=n, p=int(rng.integers(1, 5)), cats=cats, convex=True,
                          exclude=("ghs",), alpha=float(10 ** rng.uniform(-2.5, -.5)))
    if pb.fc.limited:
        raise Skip("family with limited validity")
    pb.pen.pop("P2", None)
    if cats:
        store = str(rng.choice(["df_cat", "polars_cat", "tm_cat"] if kind != "formula" else ["df_cat"]))
        Xs = pb.data.store(store)
    else:
        store = str(rng.choice(gen.STORES))
        if store == "list":
            store = "c"
        Xs = gen.store_dense(pb.X, store)
    y, w, o = pb.y, pb.w, pb.off
    fam = pb.fc.glum_family(np.random.default_rng(1))
    if kind == "shared-family":
        from checks import c07
        if (pb.fc.kind, pb.fc.param) in c07.FAMS:
            fam = c07.make(pb.fc.kind, pb.fc.param)
    link = pb.fc.glum_link(np.random.default_rng(1))
    names = [c[1] for c in pb.data.cols]
    frame = Xs if kind == "formula" else None
    if kind == "formula":
        frame = Xs.assign(yy=y)

    def make(r, same):
        """An estimator; different threads get different hyper-parameters."""
        solver = str(r.choice(["auto", "irls-ls", "irls-cd", "lbfgs"]))
        kw = dict(pb.pen)
        kw["alpha"] = float(kw["alpha"] * (1 if same else r.choice([.5, 1, 2, 4])))
        if solver in ("irls-ls", "lbfgs"):
            kw["l1_ratio"] = 0.0
        if kw["l1_ratio"] == 0:
            kw.pop("P1", None)
        kw.update(solver=solver, fit_intercept=bool(r.random() < .7), scale_predictors=bool(r.random() < .3),
                  family=fam, link=link, random_state=5, gradient_tol=1e-6)
        kw["scale_predictors"] &= kw["fit_intercept"]
        if solver == "irls-cd":
            kw["selection"] = str(r.choice(["cyclic", "random"]))
            if r.random() < .3:
                kw["hessian_approx"] = .1
        if kind == "formula":
            q = " + ".join(names) if r.random() < .6 else " + ".join(names[::-1])
            kw.pop("P1", None)
            kw["formula"] = f"yy ~ {q}"
        if kind == "cv":
            kw.pop("alpha")
            return glum.GeneralizedLinearRegressorCV(n_alphas=4, cv=2, **kw)
        if kind == "path":
            kw.pop("alpha")
            kw.update(alpha_search=True, n_alphas=5)
        return glum.GeneralizedLinearRegressor(**kw)

    shared = None
    if kind == "predict-one":
        shared = make(harness.rng_for("C23s", case["seed"], case["i"]), True)
        shared.fit(Xs, y, sample_weight=w, offset=o)

    def program(t):
        seed = (case["seed"], case["i"], t)

        def run():
            r = harness.rng_for("C23p", *seed)
            out = []

            def do(label, f):
                try:
                    out.append((label, arrays(f())))
                except Exception as e:
                    out.append((label, type(e).__name__ + ": " + str(e)[:150]))

            if shared is not None:
                for k in range(int(r.integers(3, 8))):
                    idx = np.sort(r.choice(n, int(r.integers(1, n + 1)), replace=True))
                    Z = pb.data.take(idx).store(store) if cats else gen.store_dense(pb.X[idx], store)
                    oz = None if o is None else o[idx]
                    lab = str(r.choice(["predict", "linear_predictor", "score"]))
                    if lab == "score":
                        do(lab, lambda: shared.score(Z, y[idx], offset=oz))
                    else:
                        do(lab, lambda: getattr(shared, lab)(Z, offset=oz))
                return out
            est = make(r, False)
            for rep in range(int(r.integers(1, 3))):
                if kind == "formula":
                    do("fit", lambda: [est.fit(frame, sample_weight=w, offset=o).coef_])
                    D, Y = frame, None
                else:
                    do("fit", lambda: [est.fit(Xs, y, sample_weight=w, offset=o).coef_])
                    D, Y = Xs, y
                if isinstance(out[-1][1], str):
                    return out
                do("intercept", lambda: est.intercept_)
                do("n_iter", lambda: est.n_iter_)
                if kind == "path":
                    do("path", lambda: [est.coef_path_, est.intercept_path_, est._alphas])
                if kind == "cv":
                    do("cv", lambda: [est.alpha_, est.l1_ratio_, est.deviance_path_])
                do("predict", lambda: est.predict(D, offset=o))
                do("score", lambda: est.score(D, Y if Y is not None else y, sample_weight=w, offset=o))
                if r.random() < .7:
                    do("names", lambda: [len("".join(est.feature_names_))])
                if r.random() < .6 and kind != "path":
                    do("covariance", lambda: est.covariance_matrix(
                        D, Y, sample_weight=w, offset=o, robust=bool(r.random() < .5)))
                    do("coef_table", lambda: est.coef_table())
                if r.random() < .4:
                    do("loglik", lambda: est.family_instance.log_likelihood(
                        y, est.predict(D, offset=o), w))
                if r.random() < .4:
                    do("params", lambda: [len(str(sorted(est.get_params())))])
                if r.random() < .3:
                    import copy
                    do("copy", lambda: copy.deepcopy(est).predict(D, offset=o))
                if r.random() < .5:
                    break
                est = make(r, False)
            return out
        return run

    return [program(t) for t in range(nt)], (Xs, y, w, o), (kind, store, pb.fc.name, nt)


def same(a, b, exact):
    if isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, type(b)) else False
    if a.shape != b.shape:
        return False
    if np.array_equal(a, b, equal_nan=True):
        return True
    if exact:
        return False
    s = float(np.nanmax(np.abs(b), initial=0.0))
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(a - b) <= 1e-9 * s + 1e-9 * np.abs(b)) | (np.isnan(a) & np.isnan(b))))


def run_case(case, mon):
    import warnings
    warnings.simplefilter("ignore")
    rng = harness.rng_for("C23", case["seed"], case["i"])
    progs, shared, tag = build(case, rng)
    kind = tag[0]
    rate = int(rng.choice([3, 10, 40, 200]))
    seq = [p() for p in progs]
    before = digest(shared)
    tr = Tracer(int(rng.integers(2**31)), rate)
    got, barrier = [None] * len(progs), threading.Barrier(len(progs))
    crash = [None] * len(progs)

    def runner(t):
        try:
            barrier.wait(30)
            tr.install(t)
            got[t] = progs[t]()
        except BaseException as e:  # noqa: BLE001
            crash[t] = e
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=runner, args=(t,), daemon=True) for t in range(len(progs))]
        for t in ths:
            t.start()
        for t in ths:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    for t in ths:
        if t.is_alive():
            mon.violation("a concurrent call never returned", kind=kind, tag=tag)
            return
    for e in crash:
        if e is not None:
            raise e
    mon.event("switches", tr.switches)
    mon.event("glum lines", tr.lines)
    mon.event("kind:" + kind)
    mon.state(tr.hash.hexdigest()[:16], kind)
    mon.check(digest(shared) == before, "shared inputs changed during concurrent use", tag=tag)
    redo = {}
    for t, (a, b) in enumerate(zip(got, seq)):
        if not mon.check([x[0] for x in a] == [x[0] for x in b],
                         "a concurrent program took another course than the sequential one",
                         tag=tag, concurrent=[x[0] if not isinstance(x[1], str) else x for x in a][-3:],
                         sequential=[x[0] if not isinstance(x[1], str) else x for x in b][-3:]):
            continue
        for k, ((lab, x), (_, z)) in enumerate(zip(a, b)):
            mon.oracle += 1
            mon.event("calls")
            if isinstance(z, str):
                mon.event("declined " + z.split(":")[0])
            if same(x, z, True):
                mon.event("bitwise equal")
                continue
            if same(x, z, False):
                mon.event("equal to rounding")
                continue
            if t not in redo:
                redo[t] = [progs[t]() for _ in range(5)]
            if any(len(r) > k and same(x, r[k][1], False) for r in redo[t]):
                mon.event("sequential repetition agrees")
                continue
            mon.violation(f"{lab} gives another result when other estimators run at the same time",
                          tag=tag, concurrent=x if isinstance(x, str) else x[:6],
                          sequential=z if isinstance(z, str) else z[:6])
    mon.sample({"kind": kind, "threads": len(progs), "switches": tr.switches, "lines": tr.lines})


def digest(objs):
    import scipy.sparse as sp
    h = hashlib.sha256()
    for x in objs:
        if x is None:
            continue
        if sp.issparse(x):
            for a in (getattr(x, "data", None), getattr(x, "indices", None), getattr(x, "indptr", None)):
                if a is not None:
                    h.update(np.ascontiguousarray(a).tobytes())
        elif isinstance(x, np.ndarray):
            h.update(np.ascontiguousarray(x).tobytes())
        elif hasattr(x, "to_numpy"):
            h.update(repr(x.to_numpy().tolist()).encode())
        elif hasattr(x, "toarray"):
            h.update(np.ascontiguousarray(x.toarray()).tobytes())
        else:
            h.update(repr(x).encode())
    return h.hexdigest()


if __name__ == "__main__":
    import checks.c23 as mod
    harness.main(mod)
