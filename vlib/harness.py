"""Parallel case runner, monitors, verdicts and evidence.

A check module defines PROPERTY, RULE, plan(tier, seed) -> list of JSON-able
cases and run_case(case, mon).  Each case is executed against the real glum
code in a worker process; `mon` collects what the oracle saw.

Verdicts: violated (exit 1, replay file), held on what was observed (exit 0),
inconclusive (exit 2: the deciding oracle was not reached often enough, or the
runner itself failed)."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Skip(Exception):
    """The case is outside the property's domain (counted, never judged)."""


class Monitor:
    """What one case's execution showed."""

    def __init__(self):
        self.events = collections.Counter()   # observed events by kind
        self.states = set()                   # distinct non-trivial signatures
        self.oracle = 0                       # oracle evaluations
        self.violations = []                  # (message, detail)
        self.findings = []                    # (mechanism key, message)
        self.samples = []

    def event(self, kind, n=1):
        self.events[kind] += n

    def state(self, *sig):
        self.states.add("|".join(str(s) for s in sig))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def violation(self, msg, **detail):
        self.violations.append((msg, {k: _js(v) for k, v in detail.items()}))

    def finding(self, key, msg, **detail):
        """A violation whose mechanism may be listed in known_findings.json."""
        self.findings.append((key, msg, {k: _js(v) for k, v in detail.items()}))

    def check(self, ok, msg, **detail):
        self.oracle += 1
        if not ok:
            self.violation(msg, **detail)
        return bool(ok)

    def close(self, a, b, msg, rtol=1e-7, atol=0.0, **detail):
        """Elementwise |a-b| <= atol + rtol*max(|a|,|b|); NaNs never match."""
        import numpy as np
        self.oracle += 1
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.violation(msg + f": shapes {a.shape} vs {b.shape}", **detail)
            return False
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
            bad &= ~((a == b))
        if bad.any():
            i = int(np.argmax(np.where(bad, np.nan_to_num(np.abs(a - b), nan=np.inf), -1)))
            self.violation(msg, n_bad=int(bad.sum()), at=i, got=float(a.ravel()[i]),
                           want=float(b.ravel()[i]), rtol=rtol, atol=atol, **detail)
            return False
        return True


def _js(v):
    try:
        json.dumps(v)
        return v
    except (TypeError, ValueError):
        try:
            import numpy as np
            if isinstance(v, np.ndarray):
                return v.ravel()[:20].tolist()
            if isinstance(v, np.generic):
                return v.item()
        except Exception:
            pass
        return repr(v)[:400]


def rng_for(*parts):
    """Deterministic generator from any hashable description."""
    import numpy as np
    h = hashlib.sha256(repr(parts).encode()).digest()
    return np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))


def _exec_case(mod, case):
    mon = Monitor()
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run_case(case, mon)
    except Skip as e:
        mon.event("skipped:" + str(e)[:60])
    except MemoryError:
        err = "MemoryError"
    except Exception as e:  # an unexpected exception escaped the case
        tb = traceback.extract_tb(e.__traceback__)
        src = os.path.join(REPO, "src")
        inside = [f for f in tb if f.filename.startswith(src)
                  or "glum_benchmarks" in f.filename]
        text = "".join(traceback.format_exception(e))[-3000:]
        # innermost frame decides: raised out of glum (or below it, in a library
        # called by glum) = behaviour of the system; otherwise harness trouble.
        if inside:
            mon.violation(f"unexpected {type(e).__name__} raised by glum on a valid input: "
                          f"{str(e)[:300]}", traceback=text)
            mon.oracle += 1
        elif isinstance(e, (ValueError, IndexError, KeyError, TypeError, ZeroDivisionError)) or (
                isinstance(e, AttributeError) and "NoneType" in str(e)):
            # the oracle itself choked on what glum returned (wrong shape, missing key, ...);
            # it processes every result of the unchanged tree
            mon.violation(f"the results do not have the documented form: {type(e).__name__} in "
                          f"the oracle: {str(e)[:200]}", traceback=text)
            mon.oracle += 1
        else:
            err = text
    return mon, err


def _worker(mod, cases, counter, lock, cur, wid, conn, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    while True:
        with lock:
            i = counter.value
            counter.value += 1
        if i >= len(cases) or time.time() > deadline:
            break
        cur[2 * wid] = i
        cur[2 * wid + 1] = int(time.time())
        mon, err = _exec_case(mod, cases[i])
        conn.send_bytes(pickle.dumps((i, mon, err)))
    cur[2 * wid] = -1
    conn.send_bytes(pickle.dumps(None))
    conn.close()


def run_parallel(mod, cases, budget, nproc=None, hang=150):
    """Run all cases; returns (results{i: mon}, errors, crashes, hangs)."""
    nproc = nproc or int(os.environ.get("VERIF_NPROC", os.cpu_count() or 4))
    nproc = max(1, min(nproc, len(cases)))
    ctx = mp.get_context("fork")
    counter = ctx.Value("l", 0, lock=False)
    lock = ctx.Lock()
    cur = ctx.Array("l", [-1] * (2 * nproc + 2), lock=False)
    deadline = time.time() + budget
    results, errors, crashes, hangs = {}, [], [], []
    live = {}

    def spawn(wid):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker,
                        args=(mod, cases, counter, lock, cur, wid, w, deadline))
        p.start()
        w.close()
        live[wid] = (p, r)

    for wid in range(nproc):
        spawn(wid)
    while live:
        ready = mp.connection.wait([r for _, r in live.values()], timeout=2.0)
        for wid, (p, r) in list(live.items()):
            done = dead = False
            if r in ready:
                try:
                    msg = pickle.loads(r.recv_bytes())
                    if msg is None:
                        done = True
                    else:
                        i, mon, err = msg
                        results[i] = mon
                        if err:
                            errors.append((i, err))
                except (EOFError, OSError):
                    dead = True
            elif cur[2 * wid] >= 0 and time.time() - cur[2 * wid + 1] > hang:
                i = cur[2 * wid]
                hangs.append(i)
                p.kill()
                p.join()
                cur[2 * wid] = -1
                del live[wid]
                r.close()
                if time.time() < deadline:
                    spawn(wid)
                continue
            if done:
                p.join()
                del live[wid]
                r.close()
            elif dead:
                p.join()
                i = cur[2 * wid]
                if i >= 0:
                    crashes.append((i, p.exitcode))
                cur[2 * wid] = -1
                del live[wid]
                r.close()
                # a worker killed while holding the counter lock would block the
                # others; cases take the lock only between executions, so a
                # crash inside a case cannot hold it.
                if time.time() < deadline and len(crashes) < 40:
                    spawn(wid)
    return results, errors, crashes, hangs


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except OSError:
        return {"known": [], "fixed": []}


def main(mod):
    t0 = time.time()
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    argv = sys.argv[1:]
    import glum
    if not os.path.abspath(glum.__file__).startswith(os.path.join(REPO, "src")):
        print("wrong glum under test:", glum.__file__)
        sys.exit(2)
    if "--replay" in argv:
        rep = json.load(open(argv[argv.index("--replay") + 1]))
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        mon, err = _exec_case(mod, rep["case"])
        for m in mon.violations + [(f[1], f[2]) for f in mon.findings]:
            print("REPRODUCED:", m[0], json.dumps(m[1], indent=1))
        if err:
            print(err)
        sys.exit(1 if mon.violations or mon.findings else 0)
    if "--case" in argv:
        cases = [json.loads(argv[argv.index("--case") + 1])]
    else:
        cases = mod.plan(tier, seed)
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3000)
    if hasattr(mod, "setup"):
        mod.setup(tier, seed)
    if hasattr(mod, "execute"):
        results, errors, crashes, hangs = mod.execute(cases, tier, seed, budget)
    else:
        results, errors, crashes, hangs = run_parallel(
            mod, cases, budget, nproc=getattr(mod, "NPROC", None))
    finish(mod, prop, tier, seed, cases, results, errors, crashes, hangs, t0)


def finish(mod, prop, tier, seed, cases, results, errors, crashes, hangs, t0):
    events = collections.Counter()
    states, samples, viol, finds = set(), [], [], []
    oracle = 0
    for i in sorted(results):
        m = results[i]
        events.update(m.events)
        states |= m.states
        oracle += m.oracle
        if len(samples) < 8:
            samples += m.samples
        viol += [(i, msg, d) for msg, d in m.violations]
        finds += [(i, k, msg, d) for k, msg, d in m.findings]
    for i, code in crashes:
        viol.append((i, f"the process died (exit {code}) inside glum on this case", {}))
    if getattr(mod, "HANG_IS_VIOLATION", True):
        for i in hangs:
            viol.append((i, "no result after 150 s on a case that takes milliseconds: "
                            "no progress", {}))
    known = {k["mechanism"]: k for k in load_known()["known"] if k["property"] == prop}
    hit = collections.Counter()
    for i, k, msg, d in finds:
        if k in known:
            hit[k] += 1
        else:
            viol.append((i, msg, dict(d, mechanism=k)))
    for k, n in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']} (observed {n}x)")
    paths = []
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for i, msg, d in viol:
            key = msg.split(":")[0][:70]
            if key in seen and len(seen) >= 1:
                continue
            seen.add(key)
            if len(seen) > 8:
                break
            h = hashlib.sha256((prop + repr(cases[i]) + msg).encode()).hexdigest()[:12]
            path = os.path.join(VERIF, "replays", f"{prop}-{h}.json")
            json.dump({"property": prop, "tier": tier, "seed": seed, "case": cases[i],
                       "message": msg, "detail": d,
                       "rerun": f"python3 /verif/check.py {prop} --replay {path}"},
                      open(path, "w"), indent=1, default=repr)
            paths.append((path, msg, d))
    minimum = getattr(mod, "MINIMUM", {})
    want = minimum.get(tier, minimum) if isinstance(minimum, dict) else {}
    short = []
    n_fail = len(errors)
    for k, n in (want or {}).items():
        if not isinstance(n, int):
            continue
        got = {"oracle": oracle, "states": len(states)}.get(k, events.get(k, 0))
        if got < n:
            short.append(f"{k}: observed {got}, need {n}")
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(len(results)),
            "distinct_nontrivial": int(len(states)),
            "rule": mod.RULE,
            "samples": samples[:8] or [json.loads(json.dumps(c, default=repr)) for c in cases[:3]],
            "cases_planned": len(cases),
            "oracle_evaluations": int(oracle),
            "events": {k: int(v) for k, v in sorted(events.items())},
            "crashes": len(crashes), "hangs": len(hangs), "harness_errors": n_fail,
            "known_findings_observed": dict(hit),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1, default=repr)
    print(f"[{prop}/{tier} seed={seed}] cases={len(results)}/{len(cases)} oracle={oracle} "
          f"distinct={len(states)} wall={evid['wall_s']}s")
    top = ", ".join(f"{k}={v}" for k, v in sorted(events.items()))
    print("  events:", top[:1500])
    if paths:
        for path, msg, d in paths:
            print(f"VIOLATION property={prop} replay={path}")
            print("   ", msg[:400], json.dumps(d, default=repr)[:600])
        print(f"  {len(viol)} violations in total")
        sys.exit(1)
    if errors:
        print("INCONCLUSIVE: harness errors in", len(errors), "cases; first:\n", errors[0][1])
        sys.exit(2)
    if hangs:
        print("INCONCLUSIVE: hangs", hangs[:5])
        sys.exit(2)
    if short:
        print("INCONCLUSIVE:", "; ".join(short))
        sys.exit(2)
    sys.exit(0)
