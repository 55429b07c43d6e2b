"""C22: parallel kernels are race-free and independent of the thread count.

Three monitors, all in child interpreters:
  tsan   every kernel, with generated arguments and with arguments recorded from
         real fits, under ThreadSanitizer on an instrumented OpenMP stand-in
  sched  the same calls on the stand-in without a sanitizer: 1-16 team members,
         run in parallel, one after the other and in reverse; outputs compared
         with the single-member run and with one-row calls
  fit    whole fits and direct calls on the real libgomp with 1 and with T threads
"""
import hashlib
import importlib.machinery
import importlib.util
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

from checks import c21
from vlib import gen, harness, kern
from vlib.harness import Monitor

VARIANTS = ["normal", "tsan", "shim"]
PROPERTY = "C22"
RULE = ("every compiled kernel on generated and on recorded arguments (0-4000 rows, both dtypes, "
        "contiguous/strided/reversed) under ThreadSanitizer with 2-8 threads, under 1-16 serialised "
        "and parallel team members, and on libgomp with 2-16 threads; whole fits with 1 and T "
        "threads; non-trivial = parallel executions watched; distinct = monitor, kernel, size class, "
        "dtype, team size, order / family, solver")
MINIMUM = {"quick": {"oracle": 3000, "states": 600, "tsan:call": 600, "sched:compare": 1500,
                     "fit:pair": 60, "gomp:compare": 200},
           "thorough": {"oracle": 30000, "states": 1000}}
ASSUMPTIONS = [
    "the OpenMP stand-in implements the fork/join, barrier, critical, single and loop entry points "
    "gcc emits; a race that needs libgomp's own scheduling internals is out of its reach",
    "libm is not instrumented (lgamma's signgam is therefore not reported)",
    "ThreadSanitizer keeps a bounded access history per location"]
BUDGET = {"quick": 500, "thorough": 3000}
NREC = {"quick": 60, "thorough": 400}


def plan(tier, seed):
    k = 1 if tier == "quick" else 60
    out = []
    for i in range(900 * k):
        out.append({"mode": "tsan", "src": "gen", "seed": seed, "i": i})
    for i in range(NREC[tier]):
        out.append({"mode": "tsan", "src": "rec", "seed": seed, "i": i})
    for i in range(700 * k):
        out.append({"mode": "sched", "src": "gen", "seed": seed, "i": i})
    for i in range(NREC[tier]):
        out.append({"mode": "sched", "src": "rec", "seed": seed, "i": i})
    for i in range(140 * k):
        out.append({"mode": "fit", "seed": seed, "i": i})
    for i in range(60 * k):
        out.append({"mode": "gomp", "seed": seed, "i": i})
    return out


SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 100, 257, 1000, 4000]


def load_bare(so):
    """The two extension modules alone, without importing the package."""
    out = {}
    for f in sorted(os.listdir(so)):
        if f.endswith(".so"):
            m = f[:-3]
            ld = importlib.machinery.ExtensionFileLoader("glum." + m, os.path.join(so, f))
            sp = importlib.util.spec_from_file_location("glum." + m, os.path.join(so, f), loader=ld)
            out[m] = importlib.util.module_from_spec(sp)
            ld.exec_module(out[m])
    return out


def gen_calls(case, rng):
    name = kern.NAMES[case["i"] % len(kern.NAMES)]
    n = int(rng.choice(SIZES))
    if name in ("enet_coordinate_descent_gram", "_norm_min_subgrad"):
        n = min(n, 60)
    dt = [np.float64, np.float32][int(rng.integers(2))]
    layout = str(rng.choice(["c", "c", "step", "rev"]))
    st = rng.bit_generator.state

    def make():
        rng.bit_generator.state = st
        return kern.make_args(rng, name, n, dt, layout)
    return name, n, dt, make


class Rec:
    """Arguments of the kernel calls of one real fit (at most two per kernel)."""

    def __init__(self):
        self.calls = []

    def install(self):
        import glum._cd_fast as cd
        import glum._functions as fn
        count, undo = {}, []
        for mn, m in (("_functions", fn), ("_cd_fast", cd)):
            fs = {k: v for k, v in vars(m).items() if callable(v) and not isinstance(v, type)
                  and type(v).__name__ in ("cython_function_or_method", "fused_cython_function",
                                           "_cython_function_or_method", "_fused_cython_function",
                                           "builtin_function_or_method")}
            byid = {id(v): k for k, v in fs.items()}
            for gm in [x for k, x in list(sys.modules.items()) if k.startswith("glum")]:
                for k, v in list(vars(gm).items()):
                    if id(v) in byid and gm is not m:
                        undo.append((gm, k, v))
                        setattr(gm, k, self.wrap(mn, byid[id(v)], v, count))
        return undo

    def wrap(self, mn, name, f, count):
        def g(*a, **kw):
            c = count[name] = count.get(name, 0) + 1
            if c in (1, 3) and not kw:
                try:
                    self.calls.append((mn, name, pickle.loads(pickle.dumps(a))))
                except Exception:
                    pass
            return f(*a, **kw)
        return g


def make_fit(case, rng, record=False):
    import glum
    solver = str(rng.choice(["irls-ls", "irls-cd", "irls-cd", "lbfgs"]))
    pb = gen.make_problem(rng, n=int(rng.choice([17, 64, 200, 1000])), p=int(rng.integers(1, 6)),
                          cats=0, weights=True, convex=True, alpha=float(10 ** rng.uniform(-3, 0)),
                          l1=0.0 if solver != "irls-cd" else None)
    kw = dict(pb.pen)
    kw.pop("P2", None)
    if solver != "irls-cd":
        kw.pop("P1", None)
        kw["l1_ratio"] = 0.0
    else:
        kw["l1_ratio"] = min(kw["l1_ratio"], .9)
        if rng.random() < .6:
            kw["hessian_approx"] = float(rng.choice([.05, .3]))
    dt = np.float32 if record and rng.random() < .3 else np.float64
    X = np.asfortranarray(pb.X.astype(dt))
    est = glum.GeneralizedLinearRegressor(
        family=pb.fc.glum_family(rng), link=pb.fc.glum_link(rng), solver=solver,
        fit_intercept=True, gradient_tol=1e-4 if record else 1e-8,
        max_iter=4 if record else 300, scale_predictors=bool(rng.random() < .3), **kw)
    w = None if pb.w is None else pb.w.astype(dt)
    o = None if pb.off is None else pb.off.astype(dt)
    return pb, est, X, pb.y.astype(dt), w, o, solver


def record_main():
    """Child: run the fits asked for and write their kernel calls to a file."""
    spec = json.loads(sys.stdin.read())
    import warnings
    warnings.simplefilter("ignore")
    import glum  # noqa: F401
    out = {}
    for seed, i in spec["fits"]:
        rng = harness.rng_for("C22rec", seed, i)
        rec = Rec()
        undo = rec.install()
        try:
            pb, est, X, y, w, o, solver = make_fit({}, rng, record=True)
            est.fit(X, y, sample_weight=w, offset=o)
            est.family_instance.deviance(y, est.predict(X, offset=o), w)
            est.family_instance.log_likelihood(y, est.predict(X, offset=o), w)
        except Exception:
            pass
        finally:
            for gm, k, v in undo:
                setattr(gm, k, v)
        out[f"{seed}:{i}"] = rec.calls
    with open(spec["file"], "wb") as f:
        pickle.dump(out, f)


def copy_args(args):
    return [a.copy() if isinstance(a, np.ndarray) else
            (pickle.loads(pickle.dumps(a)) if isinstance(a, np.random.RandomState) else a)
            for a in args]


def bits(a):
    return np.ascontiguousarray(a).tobytes()


def outputs(r, args):
    """(scalars, arrays) a call produced: its result and every argument array after it."""
    sc, ar = [], []
    for x in (r if isinstance(r, tuple) else (r,)):
        if isinstance(x, np.ndarray):
            ar.append(np.array(x))
        elif x is not None:
            sc.append(float(x))
    ar += [np.array(a) for a in args if isinstance(a, np.ndarray)]
    return sc, ar


def set_team(n, order="par"):
    os.environ["VERIF_OMP_THREADS"] = str(n)      # os.environ writes through to getenv
    os.environ["VERIF_OMP_ORDER"] = order


def tsan_case(case, mon, M, recs):
    rng = harness.rng_for("C22t", case["seed"], case["src"], case["i"])
    todo = []
    if case["src"] == "gen":
        name, n, dt, make = gen_calls(case, rng)
        mod, args, oi, can = make()
        todo.append((mod, name, args, n))
    else:
        for mod, name, a in recs.get(f"{case['seed']}:{case['i']}", ()):
            todo.append((mod, name, list(a), max([len(x) for x in a if isinstance(x, np.ndarray)
                                                  and x.ndim] or [0])))
    for mod, name, args, n in todo:
        team = int(rng.choice([2, 3, 4, 8]))
        set_team(team, "par")
        for rep in range(3 if case["src"] == "gen" else 1):
            try:
                kern.call(M, mod, name, copy_args(args))
            except kern.Unavailable:
                mon.event("kernel not available")
                break
            mon.oracle += 1
            mon.event("tsan:call")
            mon.state("tsan", case["src"], name, c21.size_class(n), team, str(args[0].dtype)
                      if isinstance(args[0], np.ndarray) else "")


def sched_case(case, mon, M, recs):
    rng = harness.rng_for("C22s", case["seed"], case["src"], case["i"])
    todo = []
    if case["src"] == "gen":
        name, n, dt, make = gen_calls(case, rng)
        mod, args, oi, can = make()
        todo.append((mod, name, args, n, dt))
    else:
        for mod, name, a in recs.get(f"{case['seed']}:{case['i']}", ()):
            arr = [x for x in a if isinstance(x, np.ndarray) and x.ndim]
            if arr:
                f = [x.dtype.type for x in arr if x.dtype.kind == "f"]
                todo.append((mod, name, list(a), max(len(x) for x in arr), f[0] if f else np.float64))
    for mod, name, args, n, dt in todo:
        set_team(1, "par")
        try:
            a1 = copy_args(args)
            base = outputs(kern.call(M, mod, name, a1), a1)
        except kern.Unavailable:
            mon.event("kernel not available")
            continue
        scale = None
        if base[0]:
            scale = magnitude(M, mod, name, args, n, base)
        for team, order in [(2, "fwd"), (3, "rev"), (4, "par"), (8, "par"), (16, "rev"),
                            (int(rng.integers(2, 17)), str(rng.choice(["fwd", "rev", "par"])))]:
            set_team(team, order)
            a2 = copy_args(args)
            got = outputs(kern.call(M, mod, name, a2), a2)
            mon.oracle += 1
            ok = len(got[1]) == len(base[1]) and all(
                x.shape == y.shape and bits(x) == bits(y) for x, y in zip(got[1], base[1]))
            if not ok:
                mon.violation(f"{name}: arrays differ from the single-threaded run", n=n, team=team,
                              order=order, dtype=dt.__name__)
            eps = float(np.finfo(dt).eps)
            for x, y in zip(got[0], base[0]):
                if not (abs(x - y) <= (n + 8) * eps * scale or x == y or (x != x and y != y)):
                    mon.violation(f"{name}: reduction differs from the single-threaded run beyond "
                                  "rounding", n=n, team=team, order=order, got=x, want=y,
                                  tol=(n + 8) * eps * scale)
            mon.event("sched:compare")
            mon.state("sched", case["src"], name, c21.size_class(n), team, order, dt.__name__)
        set_team(1, "par")


def magnitude(M, mod, name, args, n, base):
    """Sum of |per-row contributions| of a reduction, from one-row calls."""
    s = 2 * max([abs(x) for x in base[0] if np.isfinite(x)] or [0.0])
    if mod != "_functions":
        return s + 1.0
    ix = range(n) if n <= 64 else np.linspace(0, n - 1, 64).astype(int)
    tot = 0.0
    for i in ix:
        row = [np.array(a[i:i + 1]) if isinstance(a, np.ndarray) else a for a in args]
        try:
            v = float(kern.call(M, mod, name, row))
        except (kern.Unavailable, TypeError):
            return s + 1.0
        tot += abs(v) if np.isfinite(v) else 0.0
    return s + 4 * tot * (n / max(1, len(ix))) + 1.0


def child_main(variant):
    spec = json.loads(sys.stdin.read())
    out = os.fdopen(spec["fd"], "wb")
    err = open(spec["errfile"], "rb")
    recs = {}
    if spec.get("recfile"):
        with open(spec["recfile"], "rb") as f:
            recs = pickle.load(f)
    try:
        M = load_bare(os.environ["GLUM_SO_" + variant.upper()])
    except ImportError as e:
        M = None
        print("LOAD", e, file=sys.stderr)
    for i, case in spec["cases"]:
        class M2:
            PROPERTY = "C22"

            @staticmethod
            def run_case(c, mon):
                if M is None:
                    mon.event("stand-in could not load the kernels")
                    return
                (tsan_case if c["mode"] == "tsan" else sched_case)(c, mon, M, recs)

        mon, error = harness._exec_case(M2, case)
        sys.stderr.flush()
        if variant == "tsan":
            text = err.read().decode("utf-8", "replace")
            for m in re.finditer(r"WARNING: ThreadSanitizer: (.*?)\n(.*?)(?:={18}\n|SUMMARY[^\n]*\n)",
                                 text, re.S):
                t = m.group(0)
                if "_functions" in t or "_cd_fast" in t:
                    k = re.search(r"glum_?\d*_?(?:10_functions|8_cd_fast|\d+_?\w*?)_\d*(\w+)\(", t)
                    fn = re.search(r"#0 (\S+)", t)
                    mon.violation("ThreadSanitizer: " + m.group(1).split("(")[0].strip()
                                  + " in " + (fn.group(1) if fn else "?")[:120], report=t[:2500])
                else:
                    mon.event("foreign sanitizer report")
        out.write(pickle.dumps((i, mon, error, None)))
        out.flush()
    if M:
        try:
            import ctypes
            lib = ctypes.CDLL(M["_functions"].__file__)
            mon = Monitor()
            mon.event(f"{variant}:regions", int(lib.verif_omp_regions()))
            mon.event(f"{variant}:members", int(lib.verif_omp_members()))
            out.write(pickle.dumps((-1 - os.getpid(), mon, None, None)))
        except Exception:
            pass
    out.write(pickle.dumps(None))
    out.flush()


# --------------------------------------------------- whole fits on the real libgomp
def fit_main():
    """Child: the same fits / calls with the thread count of its environment; results pickled."""
    spec = json.loads(sys.stdin.read())
    out = os.fdopen(spec["fd"], "wb")
    import warnings
    import glum  # noqa: F401
    M = c21.mods()
    for i, case in spec["cases"]:
        mon = Monitor()
        res, error = None, None
        rng = harness.rng_for("C22f", case["seed"], case["i"])
        try:
            with warnings.catch_warnings(record=True) as W:
                warnings.simplefilter("always")
                if case["mode"] == "fit":
                    try:
                        pb, est, X, y, w, o, solver = make_fit(case, rng)
                        est.fit(X, y, sample_weight=w, offset=o)
                        res = {"coef": np.r_[est.intercept_, est.coef_], "n_iter": est.n_iter_,
                               "mu": est.predict(X, offset=o),
                               "dev": est.family_instance.deviance(y, est.predict(X, offset=o), w),
                               "score": est.score(X, y, sample_weight=w, offset=o),
                               "tag": (pb.fc.name, solver, len(y)),
                               "conv": not any("onverge" in str(x.message) for x in W)}
                    except Exception as e:
                        res = {"exc": type(e).__name__}
                else:
                    name = kern.NAMES[case["i"] % len(kern.NAMES)]
                    n = 20000 if name in ("identify_active_rows",) or name not in kern.CDN else 50
                    res = {"tag": (name, n, 0), "runs": []}
                    for dt in (np.float64, np.float32):
                        for rep in range(6):
                            r2 = harness.rng_for("C22g", case["seed"], case["i"], dt.__name__)
                            mod, args, oi, can = kern.make_args(r2, name, n, dt)
                            sc, ar = outputs(kern.call(M, mod, name, args), args)
                            res["runs"].append((dt.__name__, sc, [hashlib.sha256(bits(a)).hexdigest()
                                                                  for a in ar]))
        except kern.Unavailable:
            res = None
        except Exception:
            import traceback
            error = traceback.format_exc()
        out.write(pickle.dumps((i, mon, error, res)))
        out.flush()
    out.write(pickle.dumps(None))
    out.flush()


def judge_pair(case, mon, a, b, T):
    """One thread (a) against T threads (b)."""
    if a is None or b is None:
        mon.event("kernel not available")
        return
    if case["mode"] == "fit":
        if "exc" in a or "exc" in b:
            mon.check(a.get("exc") == b.get("exc"), "one thread count raises, the other does not",
                      one=a.get("exc"), many=b.get("exc"), threads=T)
            return
        if not (a["conv"] and b["conv"]):
            mon.event("not converged")
            return
        fam, solver, n = a["tag"]
        mon.close(b["coef"], a["coef"], "coefficients depend on the thread count", rtol=1e-4,
                  atol=1e-5 * (1 + float(np.max(np.abs(a["coef"])))), threads=T, family=fam, solver=solver)
        mon.close(b["mu"], a["mu"], "predictions depend on the thread count", rtol=1e-4,
                  atol=1e-5 * (1 + float(np.max(np.abs(a["mu"])))), threads=T, family=fam, solver=solver)
        if np.isfinite(a["dev"]) or np.isfinite(b["dev"]):
            mon.close([b["dev"], b["score"]], [a["dev"], a["score"]],
                      "deviance or score depend on the thread count", rtol=1e-4,
                      atol=1e-4 * (1 + abs(a["dev"])), threads=T, family=fam)
        mon.event("fit:pair")
        mon.state("fit", fam, solver, c21.size_class(n), T)
    else:
        name, n, _ = a["tag"]
        ref = {d: (sc, h) for d, sc, h in a["runs"]}
        for d, sc, h in b["runs"]:
            mon.check(h == ref[d][1], f"{name}: arrays depend on the thread count", threads=T, dtype=d)
            eps = float(np.finfo(d).eps)
            for x, y in zip(sc, ref[d][0]):
                mon.check(abs(x - y) <= 60 * np.sqrt(n) * eps * (abs(y) + n) or x == y or (x != x and y != y),
                          f"{name}: reduction depends on the thread count beyond rounding",
                          threads=T, dtype=d, got=x, want=y)
            mon.event("gomp:compare")
        mon.state("gomp", name, T)


def _env(variant):
    env = dict(os.environ)
    env["GLUM_SO_DIR"] = ""
    if variant == "tsan":
        env["LD_PRELOAD"] = subprocess.run(["gcc", "-print-file-name=libtsan.so"], capture_output=True,
                                           text=True).stdout.strip()
        env["TSAN_OPTIONS"] = ("halt_on_error=0:ignore_noninstrumented_modules=1:exitcode=0:"
                               "history_size=4:report_thread_leaks=0")
    return env


def execute(cases, tier, seed, budget):
    deadline = time.time() + budget
    results, errors, crashes, hangs = {}, [], [], []
    lock = threading.Lock()
    tmp = tempfile.mkdtemp(prefix="c22-", dir=os.environ.get("TMPDIR", "/tmp"))
    extra = Monitor()
    try:
        fits = sorted({(c["seed"], c["i"]) for c in cases if c.get("src") == "rec"})
        recfile = ""
        if fits:
            recfile = os.path.join(tmp, "rec")
            env = dict(os.environ)
            p = subprocess.run([sys.executable, "-m", "checks.c22", "--record"], cwd=harness.VERIF,
                               input=json.dumps({"fits": fits, "file": recfile}), text=True,
                               capture_output=True, env=env, timeout=400)
            if p.returncode:
                return {}, [(0, "recording failed: " + p.stderr[-2000:])], [], []
        jobs = []
        for mode, k in (("tsan", 8), ("sched", 4)):
            idx = [i for i, c in enumerate(cases) if c["mode"] == mode]
            k = min(k * (1 if tier == "quick" else 3), len(idx))
            for j in range(k):
                jobs.append((mode, [(i, cases[i]) for i in idx[j::k]]))
        idx = [i for i, c in enumerate(cases) if c["mode"] in ("fit", "gomp")]
        k = min(4 if tier == "quick" else 12, len(idx))
        for j in range(k):
            jobs.append(("fit", [(i, cases[i]) for i in idx[j::k]]))

        def run(mode, todo):
            if mode == "fit":
                got = {}
                T = int(hashlib.sha256(repr(todo[0]).encode()).hexdigest(), 16) % 4
                T = [2, 4, 8, 16][T]
                for t in (1, T):
                    env = dict(os.environ, OMP_NUM_THREADS=str(t), OMP_WAIT_POLICY="passive",
                               OMP_DYNAMIC="false")
                    env.pop("NUMEXPR_MAX_THREADS", None)
                    recs, crash, hang, left = c21.run_child("normal", t, todo, deadline, module="checks.c22",
                                                            env=env)
                    for i, (m, e, r) in recs.items():
                        got.setdefault(i, {})[t] = r
                        if e:
                            with lock:
                                errors.append((i, e))
                    if crash or hang is not None:
                        m = Monitor()
                        i = crash[0] if crash else hang
                        if crash and crash[1] in (1, 2):
                            with lock:
                                errors.append((i, crash[2]))
                        else:
                            m.violation(f"the process died or hung with {t} OpenMP threads",
                                        stderr=crash[2][-600:] if crash else "hang")
                            with lock:
                                results[i] = m
                for i, c in todo:
                    if len(got.get(i, ())) == 2:
                        m = Monitor()
                        judge_pair(c, m, got[i][1], got[i][T], T)
                        with lock:
                            results[i] = m
                return
            variant = "tsan" if mode == "tsan" else "shim"
            rest, tries = list(todo), 0
            while rest and time.time() < deadline and tries < 6:
                tries += 1
                recs, crash, hang, rest = c21.run_child(variant, 1, rest, deadline, module="checks.c22",
                                                        env=_env(variant), recfile=recfile)
                with lock:
                    for i, (m, e, _) in recs.items():
                        if i < 0:
                            extra.events.update(m.events)
                            continue
                        results[i] = m
                        if e:
                            errors.append((i, e))
                if crash:
                    i, rc, text = crash
                    if rc in (1, 2) or "FATAL: ThreadSanitizer" in text or "unexpected memory mapping" in text:
                        if tries < 4:
                            continue
                        with lock:
                            errors.append((i, text))
                        return
                    m = Monitor()
                    m.violation(f"the interpreter died (exit {rc}) in a parallel kernel", stderr=text[-800:])
                    with lock:
                        results[i] = m
                    rest = [c for c in rest if c[0] != i]
                elif hang is not None:
                    with lock:
                        hangs.append(hang)
                    rest = [c for c in rest if c[0] != hang]
                else:
                    break

        queue = list(jobs)

        def loop():
            while True:
                with lock:
                    if not queue:
                        return
                    job = queue.pop(0)
                try:
                    run(*job)
                except Exception:
                    import traceback
                    with lock:
                        errors.append((job[1][0][0], traceback.format_exc()))

        ths = [threading.Thread(target=loop) for _ in range(min(8, len(jobs)))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if results:
            results[min(results)].events.update(extra.events)
        return results, errors, crashes, hangs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_case(case, mon):
    c21_run = execute([case], "quick", case["seed"], 200)
    results, errors, crashes, hangs = c21_run
    if 0 in results:
        mon.__dict__.update(results[0].__dict__)
    if errors:
        raise RuntimeError(errors[0][1])
    if hangs:
        mon.violation("no result within 100 s")


if __name__ == "__main__":
    if "--record" in sys.argv:
        record_main()
    elif "--child" in sys.argv:
        v = sys.argv[sys.argv.index("--child") + 1]
        fit_main() if v == "normal" else child_main(v)
    else:
        import checks.c22 as mod
        harness.main(mod)
