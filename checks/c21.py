"""C21: memory and undefined-behaviour monitors on the compiled kernels.

Every case runs in child interpreters that load glum's extensions rebuilt from
/repo with a monitor compiled in:
  asan     AddressSanitizer + UndefinedBehaviourSanitizer (incl. float-cast)
  bounds   Cython's own index, None and initialisation checks
  zero / pattern   locals and fresh heap memory filled with zeros / a pattern:
           the two runs must return bit-identical results, otherwise a result
           depends on memory nobody initialised
"""
import hashlib
import io
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

from vlib import gen, harness, kern
from vlib.harness import Monitor, Skip

VARIANTS = ["normal", "asan", "bounds", "zero", "pattern"]
PROPERTY = "C21"
RULE = ("real fits (all families, links, solvers, storage kinds, dtypes, 1-40 columns, 1-200 rows, "
        "bounds, row/column screening, 1-8 OpenMP threads) followed by predict/score/likelihood/"
        "covariance, direct calls of every kernel with exact-size, padded, strided and reversed "
        "buffers of 0-1000 elements, and malformed direct calls, under ASan+UBSan, under Cython's "
        "bounds checks, and twice with differently pre-filled uninitialised memory; non-trivial = "
        "executions watched; distinct = monitor, kind, kernel or family/solver/storage, size class")
MINIMUM = {"quick": {"oracle": 2500, "states": 600, "asan:fit": 150, "asan:direct": 300,
                     "asan:malformed": 50, "bounds:fit": 100, "bounds:direct": 200,
                     "poison:fit": 60, "poison:direct": 150},
           "thorough": {"oracle": 20000, "states": 1200}}
ASSUMPTIONS = [
    "AddressSanitizer sees accesses next to an allocation, not arbitrary far ones; the bounds-"
    "checked rebuild sees every indexed access but not pointer arithmetic",
    "numpy keeps freed blocks below 1 KiB in a cache, so use-after-free of tiny arrays may go unseen",
    "reports whose stack does not contain a glum extension are counted as foreign, not judged",
    "None passed for an array is not covered (Cython memoryviews accept None)"]
BUDGET = {"quick": 500, "thorough": 3000}
KINDS = ["fit", "fit", "direct", "direct", "malformed", "dist"]
SIZES = [0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 64, 1000]


def plan(tier, seed):
    n = {"asan": 1500, "bounds": 700, "poison": 500} if tier == "quick" else \
        {"asan": 120000, "bounds": 50000, "poison": 50000}
    out = []
    for mode, k in n.items():
        for i in range(k):
            kind = KINDS[i % len(KINDS)]
            if mode != "asan" and kind in ("malformed", "dist"):
                kind = "fit" if kind == "malformed" else "direct"
            out.append({"seed": seed, "mode": mode, "i": i, "kind": kind})
    return out


# ------------------------------------------------------------------ in the child
def mods():
    import importlib
    out = {}
    for m in ("_functions", "_cd_fast"):
        try:
            out[m] = importlib.import_module("glum." + m)
        except ImportError:
            pass
    return out


def size_class(n):
    return n if n < 4 else "<=9" if n < 10 else "<=64" if n <= 64 else ">64"


def do_fit(case, mon, rng, sink):
    import glum
    r = rng.random()
    n = int(rng.choice([1, 2, 3, 7, 8, 9, 17, 33, 64, 200]))
    p = int(rng.choice([1, 2, 3, 5, 9, 17, 40], p=[.2, .2, .2, .15, .1, .1, .05]))
    pb = gen.make_problem(rng, n=max(n, 2), p=p, cats=0 if r < .7 else None)
    X = pb.X
    P = X.shape[1]
    solver = str(rng.choice(["auto", "irls-ls", "irls-cd", "irls-cd", "lbfgs", "trust-constr"],
                            p=[.15, .2, .25, .25, .13, .02]))
    pen = dict(pb.pen)
    if solver in ("irls-ls", "lbfgs", "trust-constr"):
        pen["l1_ratio"] = 0.0
        pen.pop("P1", None)
    kw = dict(solver=solver, fit_intercept=bool(rng.random() < .7), max_iter=int(rng.choice([1, 3, 8])),
              scale_predictors=bool(rng.random() < .3), **pen)
    if solver == "irls-cd":
        kw["selection"] = str(rng.choice(["cyclic", "random"]))
        kw["random_state"] = 3
        if rng.random() < .5:
            kw["hessian_approx"] = float(rng.choice([.1, .5, .9]))
    b = rng.random()
    if solver in ("irls-cd", "auto", "trust-constr") and b < .5:
        if b < .35:
            kw["lower_bounds"] = rng.uniform(-1, .1, P)
        if b > .2:
            kw["upper_bounds"] = rng.uniform(.1, 1, P)
    store = str(rng.choice(gen.STORES + ["f32", "f32c"]))
    if pb.data.has_cat and rng.random() < .7:
        store = str(rng.choice(["df_cat", "tm_cat", "polars_cat"]))
    if n == 1:
        cut = slice(0, 1)
        Xs = gen.store_dense(X[cut], store if "_cat" not in store else "c")
    else:
        cut = slice(None)
        Xs = pb.data.store(store) if "_cat" in store else gen.store_dense(X, store)
    y, w, o = pb.y[cut], None if pb.w is None else pb.w[cut], None if pb.off is None else pb.off[cut]
    if store in ("f32", "f32c"):
        y = y.astype(np.float32)
    cls = glum.GeneralizedLinearRegressor
    mode = rng.random()
    if mode < .12:
        kw["alpha_search"] = True
        kw.pop("alpha", None)
        kw["n_alphas"] = 4
    elif mode < .17 and n >= 7:
        cls = glum.GeneralizedLinearRegressorCV
        kw.pop("alpha", None)
        kw.pop("alpha_search", None)
        kw.update(n_alphas=3, cv=2)
    est = cls(family=pb.fc.glum_family(rng), link=pb.fc.glum_link(rng), **kw)
    out = []
    steps = [("fit", lambda: est.fit(Xs, y, sample_weight=w, offset=o)),
             ("coef", lambda: (est.coef_, est.intercept_)),
             ("predict", lambda: est.predict(Xs, offset=o)),
             ("score", lambda: est.score(Xs, y, sample_weight=w, offset=o)),
             ("ll", lambda: est.family_instance.log_likelihood(y, est.predict(Xs, offset=o), w)),
             ("aic", lambda: est.aic(Xs, y, sample_weight=w)),
             ("cov", lambda: est.covariance_matrix(Xs, y, sample_weight=w, offset=o))]
    done = 0
    for name, f in steps:
        try:
            v = f()
            done += 1
        except Exception as e:
            if "Out of bounds on buffer access" in str(e) or isinstance(e, (SystemError, BufferError)):
                mon.violation(f"{type(e).__name__} during {name}: {str(e)[:200]}")
            mon.event(f"declined:{name}:{type(e).__name__}")
            v = type(e).__name__
            if name == "fit":
                break
        if name not in ("fit",):
            sink(name, v)
    mon.event(f"{case['mode']}:fit")
    mon.event("calls", done)
    mon.state(case["mode"], "fit", pb.fc.name, solver, store, size_class(n), kw["fit_intercept"])


def do_direct(case, mon, rng, sink):
    M = mods()
    i = case["i"]
    name = kern.NAMES[(i // 2) % len(kern.NAMES)]
    for _ in range(4):
        n = int(rng.choice(SIZES))
        dt = [np.float64, np.float32][int(rng.integers(2))]
        layout = str(rng.choice(["c", "c", "pad", "step", "rev"]))
        mod, args, oi, can = kern.make_args(rng, name, n, dt, layout, rng.random() < .2)
        if n == 0 and name in ("enet_coordinate_descent_gram", "_norm_min_subgrad") \
                and len(args[0]) == 0:
            continue
        try:
            r = kern.call(M, mod, name, args)
        except kern.Unavailable as e:
            mon.event("kernel not available")
            continue
        except Exception as e:
            if "Out of bounds on buffer access" in str(e) or isinstance(e, (SystemError, BufferError)):
                mon.violation(f"{type(e).__name__} in {name}: {str(e)[:200]}", n=n, layout=layout)
            mon.event(f"kernel raised {type(e).__name__}")
            continue
        if can:
            mon.check(kern.canaries_intact(can), f"{name} wrote outside its arguments", n=n,
                      layout=layout)
        sink(name, r)
        sink(name, [args[j] for j in oi])
        mon.event(f"{case['mode']}:direct")
        mon.state(case["mode"], "direct", name, size_class(n), dt.__name__, layout)


def do_malformed(case, mon, rng, sink):
    """Wrong dtype, dimension, layout or writability must raise, not corrupt."""
    M = mods()
    name = kern.NAMES[(case["i"] // 6) % len(kern.NAMES)]
    n = int(rng.choice([2, 3, 9, 17]))
    dt = [np.float64, np.float32][int(rng.integers(2))]
    mod, args, oi, can = kern.make_args(rng, name, n, dt, "c")
    try:
        kern.call(M, mod, name, args)
    except kern.Unavailable:
        mon.event("kernel not available")
        return
    arr = [j for j, a in enumerate(args) if isinstance(a, np.ndarray) and a.size]
    for _ in range(6):
        mod, args, oi, can = kern.make_args(rng, name, n, dt, "c")
        cand = [j for j in arr if j < len(args) and isinstance(args[j], np.ndarray) and args[j].size]
        j = int(rng.choice(cand))
        a = args[j]
        how = str(rng.choice(["dtype", "ndim", "int", "complex", "readonly", "stride", "bytes"]))
        if how == "dtype":
            b = a.astype(np.float32 if a.dtype == np.float64 else np.float64)
        elif how == "ndim":
            b = a[None] if a.ndim == 1 else a[0]
        elif how == "int":
            b = a.astype(np.int64)
        elif how == "complex":
            b = a.astype(complex)
        elif how == "bytes":
            b = a.astype(a.dtype.newbyteorder())
        elif how == "readonly":
            if j not in oi and name not in ("identify_active_rows", "enet_coordinate_descent_gram",
                                            "_norm_min_subgrad"):
                continue
            b = a.copy()
            b.flags.writeable = False
        else:
            if mod != "_cd_fast" or a.ndim != 1 or len(a) < 2:
                continue
            if name != "identify_active_rows" and j in (11, 13, 6, 8):
                continue                                     # strided bounds are accepted
            b = np.repeat(a, 2)[::2]
        args[j] = b
        try:
            getattr(M[mod], name)(*args)
        except (TypeError, ValueError, BufferError) as e:
            mon.oracle += 1
            mon.event(f"{case['mode']}:malformed")
            mon.state(case["mode"], "malformed", name, how, j)
            continue
        mon.oracle += 1
        mon.violation(f"{name} accepted a malformed array: {how}", argument=j, n=n, dtype=dt.__name__)


def do_dist(case, mon, rng, sink):
    """Public distribution methods: mismatched lengths are refused, never over-read."""
    from checks import c07
    kind, par = c07.FAMS[int(rng.integers(len(c07.FAMS)))]
    fam = c07.make(kind, par)
    n = int(rng.choice([1, 2, 5, 9, 40]))
    y = rng.integers(0, 2, n) * 1.0 if kind == "binomial" else rng.poisson(2.0, n) + \
        (0.0 if kind in ("poisson", "negbin") or par in (1, 1.0) else .5)
    mu = np.clip(y, .05, .95) if kind == "binomial" else y + .1
    w = rng.uniform(.5, 2, n)
    short = int(rng.integers(0, n + 4))
    for name, f in (("deviance", lambda a, b, c: fam.deviance(a, b, c)),
                    ("log_likelihood", lambda a, b, c: fam.log_likelihood(a, b, c)),
                    ("dispersion", lambda a, b, c: fam.dispersion(a, b, c))):
        for j in range(3):
            args = [y, mu, w]
            try:
                sink(name, f(*args))
            except (NotImplementedError, ValueError, AttributeError, ZeroDivisionError):
                break
            full = args[j]
            args[j] = np.resize(full, short).copy() if short else np.zeros(0)
            try:
                f(*args)
            except Exception as e:
                mon.event(f"refused:{type(e).__name__}")
            mon.event(f"{case['mode']}:dist")
            mon.state(case["mode"], "dist", kind, par, name, j, size_class(n), short - n)


DO = {"fit": do_fit, "direct": do_direct, "malformed": do_malformed, "dist": do_dist}


def child_case(case, mon, sink):
    DO[case["kind"]](case, mon, harness.rng_for("C21", case["seed"], case["mode"], case["i"]), sink)


def flat(v):
    if isinstance(v, (tuple, list)):
        return b"".join(flat(x) for x in v)
    if v is None or isinstance(v, (str, bool)):
        return repr(v).encode()
    a = np.asarray(v)
    if a.dtype == object:
        return repr(v).encode()
    a = a.copy()
    if a.dtype.kind == "f":
        a[...] = np.where(np.isnan(a), np.nan, a) + 0.0
    return a.tobytes()


def child_main(mode):
    """Runs the cases on stdin, one pickled record per case on fd VERIF_OUT."""
    spec = json.loads(sys.stdin.read())
    out = os.fdopen(spec["fd"], "wb")
    poison = spec["variant"] == "pattern"
    if poison:
        real_empty, real_like = np.empty, np.empty_like

        def fill(a):
            if a.dtype.kind == "f":
                a.fill(np.nan)
            elif a.dtype.kind in "iu":
                a.fill(1)
            return a

        np.empty = lambda *a, **k: fill(real_empty(*a, **k))
        np.empty_like = lambda *a, **k: fill(real_like(*a, **k))
    else:
        real_empty, real_like = np.empty, np.empty_like
        if spec["variant"] == "zero":
            def zero(a):
                if a.dtype.kind in "fiu":
                    a.fill(0)
                return a
            np.empty = lambda *a, **k: zero(real_empty(*a, **k))
            np.empty_like = lambda *a, **k: zero(real_like(*a, **k))
    unraised = []
    sys.unraisablehook = lambda u: unraised.append(f"{u.exc_type.__name__}: {u.exc_value}")
    import glum  # noqa: F401
    want = os.environ.get("GLUM_SO_DIR")
    for m in mods().values():
        assert m.__file__.startswith(want), (m.__file__, want)
    err = open(spec["errfile"], "rb")
    for i, case in spec["cases"]:
        digest = []

        def sink(name, v):
            digest.append((name, hashlib.sha256(flat(v)).hexdigest()[:16]))

        class M2:
            PROPERTY = "C21"

            @staticmethod
            def run_case(c, mon):
                child_case(c, mon, sink)

        mon, error = harness._exec_case(M2, case)
        # a refused input is not this property's business
        mon.violations = [v for v in mon.violations
                          if not v[0].startswith("unexpected ")
                          or "Out of bounds on buffer access" in v[0]]
        mon.oracle += 1
        for u in unraised:
            if "Out of bounds" in u:
                mon.violation("index error inside a kernel that cannot raise: " + u[:200])
        unraised.clear()
        sys.stderr.flush()
        text = err.read().decode("utf-8", "replace")
        for rep in reports(text):
            if "foreign" in rep:
                mon.event("foreign sanitizer report")
            else:
                mon.violation(rep["title"], report=rep["text"][:2500])
        out.write(pickle.dumps((i, mon, error, digest)))
        out.flush()
    out.write(pickle.dumps(None))
    out.flush()


REP = re.compile(r"(==\d+==ERROR: AddressSanitizer: .*|[^\n]*runtime error: .*)")


def reports(text):
    """Sanitizer reports in a piece of stderr."""
    pos = [m.start() for m in REP.finditer(text)]
    for a, b in zip(pos, pos[1:] + [len(text)]):
        t = text[a:b]
        head = t.split("\n", 1)[0]
        ours = "_functions" in t or "_cd_fast" in t or "/glum" in t
        if "AddressSanitizer" in head:
            title = "AddressSanitizer: " + re.sub(r"0x[0-9a-f]+", "..", head.split("AddressSanitizer:")[1])[:120]
        else:
            title = "UndefinedBehaviorSanitizer: " + re.sub(r"0x[0-9a-f]+", "..", head.split("runtime error:")[1])[:160]
        r = {"title": title, "text": t}
        if not ours:
            r["foreign"] = True
        yield r


# ------------------------------------------------------------------ in the parent
def _env(variant, threads):
    env = dict(os.environ)
    env["GLUM_SO_DIR"] = os.environ["GLUM_SO_" + variant.upper()]
    env["OMP_NUM_THREADS"] = str(threads)
    env["OMP_WAIT_POLICY"] = "passive"
    env["PYTHONMALLOC"] = "malloc"
    env.pop("NUMEXPR_MAX_THREADS", None)
    if variant == "asan":
        libs = [subprocess.run(["gcc", f"-print-file-name={l}"], capture_output=True, text=True)
                .stdout.strip() for l in ("libasan.so", "libubsan.so")]
        env["LD_PRELOAD"] = " ".join(libs)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=0:allocator_may_return_null=1:"
                               "quarantine_size_mb=32:detect_odr_violation=0:handle_segv=1")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0"
    if variant == "pattern":
        env["MALLOC_PERTURB_"] = "165"
    return env


def run_child(variant, threads, cases, deadline, per_case=100, module="checks.c21", env=None,
              **extra):
    """Run [(index, case)] in one child; returns records, crash (index, rc, text) or None, hang."""
    tmp = tempfile.mkdtemp(prefix="c21-", dir=os.environ.get("TMPDIR", "/tmp"))
    errfile = os.path.join(tmp, "err")
    r, w = os.pipe()
    recs, hang = {}, None
    try:
        with open(errfile, "wb") as ef:
            p = subprocess.Popen([sys.executable, "-m", module, "--child", variant],
                                 stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=ef,
                                 env=env or _env(variant, threads), pass_fds=(w,), cwd=harness.VERIF)
        os.close(w)
        p.stdin.write(json.dumps({"variant": variant, "fd": w, "errfile": errfile,
                                  "cases": cases, **extra}).encode())
        p.stdin.close()
        last = [time.time()]
        done = threading.Event()
        state = {"hang": False}

        def watch():
            while not done.wait(1.0):
                if time.time() - last[0] > per_case or time.time() > deadline:
                    state["hang"] = time.time() - last[0] > per_case
                    p.kill()
                    return

        th = threading.Thread(target=watch, daemon=True)
        th.start()
        clean = False
        with os.fdopen(r, "rb") as f:
            while True:
                try:
                    m = pickle.load(f)
                except (EOFError, pickle.UnpicklingError, io.UnsupportedOperation):
                    break
                last[0] = time.time()
                if m is None:
                    clean = True
                    break
                recs[m[0]] = m[1:]
        p.wait()
        done.set()
        th.join()
        text = open(errfile, "rb").read().decode("utf-8", "replace")
        left = [c for c in cases if c[0] not in recs]
        crash = None
        if not clean and left and time.time() < deadline:
            if state["hang"]:
                hang = left[0][0]
            else:
                crash = (left[0][0], p.returncode, text[-3000:])
        return recs, crash, hang, left
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def execute(cases, tier, seed, budget):
    deadline = time.time() + budget
    jobs, nproc = [], os.cpu_count() or 4
    for mode in ("asan", "bounds", "poison"):
        idx = [i for i, c in enumerate(cases) if c["mode"] == mode]
        if not idx:
            continue
        k = max(1, min({"asan": 8, "bounds": 4, "poison": 4}[mode] * (1 if tier == "quick" else 4),
                       len(idx)))
        for j in range(k):
            jobs.append((mode, [(i, cases[i]) for i in idx[j::k]],
                         [1, 3, 1, 8, 2, 4][j % 6] if mode != "poison" else 1))
    results, errors, crashes, hangs = {}, [], [], []
    lock = threading.Lock()
    queue = list(jobs)

    def absorb(recs, mode):
        with lock:
            for i, (mon, err, dig) in recs.items():
                results[i] = mon
                if err:
                    errors.append((i, err))

    def run(mode, todo, threads):
        variants = ["zero", "pattern"] if mode == "poison" else [mode]
        digs = {}
        for v in variants:
            rest, tries = list(todo), 0
            while rest and time.time() < deadline and tries < 12:
                recs, crash, hang, rest = run_child(v, threads, rest, deadline)
                tries += 1
                absorb(recs, mode)
                for i, (_, _, d) in recs.items():
                    digs.setdefault(i, {})[v] = d
                if crash:
                    i, rc, text = crash
                    if "checks.c21" in text and "Traceback" in text and rc == 1:
                        with lock:
                            errors.append((i, text))
                        return
                    rep = list(reports(text))
                    m = Monitor()
                    if rep:
                        m.violation(rep[-1]["title"], report=rep[-1]["text"][:2500], exit=rc)
                    else:
                        m.violation(f"the interpreter died (exit {rc}) inside a kernel call",
                                    stderr=text[-800:], variant=v)
                    with lock:
                        results[i] = m
                    rest = [c for c in rest if c[0] != i]
                elif hang is not None:
                    with lock:
                        hangs.append(hang)
                    rest = [c for c in rest if c[0] != hang]
                else:
                    break
        if mode == "poison":
            for i, d in digs.items():
                if len(d) == 2:
                    m = results[i]
                    m.oracle += 1
                    m.event("poison:values", len(d["zero"]))
                    if d["zero"] != d["pattern"]:
                        bad = [a[0] for a, b in zip(d["zero"], d["pattern"]) if a != b]
                        m.violation("results depend on uninitialised memory: two runs that differ "
                                    "only in what fresh memory contains disagree", where=bad[:5],
                                    lengths=[len(d["zero"]), len(d["pattern"])])

    def loop():
        while True:
            with lock:
                if not queue:
                    return
                job = queue.pop(0)
            try:
                run(*job)
            except Exception as e:
                import traceback
                with lock:
                    errors.append((job[1][0][0], traceback.format_exc()))

    ths = [threading.Thread(target=loop) for _ in range(nproc)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return results, errors, crashes, hangs


def run_case(case, mon):
    """Replay / single case: the same children, one case."""
    results, errors, crashes, hangs = execute([case], "quick", case["seed"], 200)
    m = results.get(0)
    if m is not None:
        mon.__dict__.update(m.__dict__)
    if errors:
        raise RuntimeError(errors[0][1])
    if hangs:
        mon.violation("no result within 100 s")


if __name__ == "__main__":
    if "--child" in sys.argv:
        child_main(sys.argv[sys.argv.index("--child") + 1])
    else:
        import checks.c21 as mod
        harness.main(mod)
