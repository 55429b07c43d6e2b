"""Direct calls of the compiled kernels with generated arguments.

The kernels are internal, so a call whose signature no longer fits (TypeError
on a well-formed call) is reported as `Unavailable`, never as a violation; the
fits exercise whatever kernels exist."""
import numpy as np

PRE = {"normal_identity": ("normal", None), "poisson_log": ("poisson", None),
       "gamma_log": ("gamma", None), "inv_gaussian_log": ("gamma", None),
       "tweedie_log": ("tweedie", "p"), "binomial_logit": ("binomial", None),
       "negative_binomial_log": ("poisson", "theta")}
TOT = {"normal": ("normal", None), "poisson": ("poisson", None), "gamma": ("gamma", None),
       "inv_gaussian": ("gamma", None), "tweedie": ("tweedie", "p"),
       "negative_binomial": ("poisson", "theta")}
NAMES = ([f"{k}_eta_mu_deviance" for k in PRE]
         + [f"{k}_rowwise_gradient_hessian" for k in PRE]
         + [f"{k}_deviance" for k in TOT] + [f"{k}_log_likelihood" for k in TOT]
         + ["identify_active_rows", "enet_coordinate_descent_gram", "_norm_min_subgrad"])
CDN = ("identify_active_rows", "enet_coordinate_descent_gram", "_norm_min_subgrad")
PER_ROW = {"eta": (4, 5), "rows": (4, 5)}


class Unavailable(Exception):
    pass


def what(name):
    if name in CDN:
        return name
    if name.endswith("_eta_mu_deviance"):
        return "eta"
    if name.endswith("_rowwise_gradient_hessian"):
        return "rows"
    return "ll" if name.endswith("_log_likelihood") else "dev"


def lay(a, layout, sentinel=1234.5):
    """The same values in another memory layout; returns (view, whole buffer)."""
    n = len(a)
    if layout == "c":
        b = np.empty(n, a.dtype)
        b[:] = a
        return b, None
    if layout == "pad":          # contiguous, surrounded by canaries
        b = np.full(n + 16, sentinel, a.dtype)
        b[8:8 + n] = a
        return b[8:8 + n], b
    if layout == "step":
        b = np.full(3 * n + 6, sentinel, a.dtype)
        b[3:3 + 3 * n:3] = a
        return b[3:3 + 3 * n:3], b
    if layout == "rev":
        b = np.full(n + 2, sentinel, a.dtype)
        v = b[1:1 + n][::-1]
        v[:] = a
        return v, b
    raise ValueError(layout)


def values(rng, fam, n, dt, extreme=False):
    sc = rng.choice([3.0, 30.0]) if extreme else 1.0
    eta = (rng.normal(size=n) * sc).astype(dt)
    w = rng.uniform(.1, 2, n).astype(dt)
    if n and rng.random() < .3:
        w[rng.integers(n)] = 0
    mu = np.exp(np.clip(rng.normal(size=n) * sc, -30, 30)).astype(dt)
    if fam == "normal":
        y, mu = (rng.normal(size=n) * sc).astype(dt), (rng.normal(size=n) * sc).astype(dt)
    elif fam == "poisson":
        y = rng.poisson(3.0, size=n).astype(dt)
    elif fam == "gamma":
        y = (rng.gamma(2.0, size=n) + .05).astype(dt)
    elif fam == "tweedie":
        y = np.where(rng.random(n) < .4, 0, rng.gamma(2.0, size=n) + .05).astype(dt)
    else:
        y = rng.integers(0, 2, size=n).astype(dt)
        mu = rng.uniform(.01, .99, size=n).astype(dt)
    return eta, w, mu, y


def make_args(rng, name, n, dt, layout="c", extreme=False):
    """(module name, argument list, indices of output arguments, canary checks)."""
    k = what(name)
    if k in CDN:
        return ("_cd_fast", *_cd_args(rng, name, n, dt, layout))
    pre = name.replace("_eta_mu_deviance", "").replace("_rowwise_gradient_hessian", "") \
        .replace("_deviance", "").replace("_log_likelihood", "")
    fam, par = (PRE if k in ("eta", "rows") else TOT)[pre]
    eta, w, mu, y = values(rng, fam, n, dt, extreme)
    pv = {"p": float(rng.choice([1.5, 1.1, 1.9, 2.5] if k != "ll" else [1.5, 1.2, 1.9])),
          "theta": float(rng.choice([.1, 1., 3.])), None: None}[par]
    if par == "p" and pv > 2:
        y = y + dt(.05)
    can = []

    def put(a):
        v, b = lay(a, layout)
        if b is not None:
            can.append((v, b, b.copy()))
        return v

    outs = [put(np.full(n, 77.25, dt)), put(np.full(n, 78.25, dt))]
    if k == "eta":
        args = [put(eta), put((rng.normal(size=n) * .3).astype(dt)), put(y), put(w), *outs,
                float(rng.choice([1.0, .5, .25]))]
        oi = (4, 5)
    elif k == "rows":
        args = [put(y), put(w), put(eta), put(mu if fam == "normal" else
                                             (np.exp(eta) if fam != "binomial" else
                                              1 / (1 + np.exp(-eta))).astype(dt)), *outs]
        oi = (4, 5)
    elif k == "dev":
        args, oi = [put(y), put(w), put(mu)], ()
        if par is None:
            args.append(1.0)
    else:
        args, oi = [put(y), put(w), put(mu)], ()
    if par is not None:
        args.append(pv)
    if k == "ll":
        args.append(float(rng.choice([.3, 1.0, 2.5])))
    return "_functions", args, oi, can


def _cd_args(rng, name, n, dt, layout):
    if name == "identify_active_rows":
        h = rng.uniform(.1, 2, n).astype(dt)
        old = np.where(rng.random(n) < .5, h, h + rng.normal(size=n) * .2).astype(dt)
        return [rng.normal(size=n).astype(dt), h, old, float(rng.choice([0, .1, .5, .9]))], (1,), []
    p = n                              # here n counts the features
    ic = int(rng.random() < .5)
    tot = p + ic
    k = tot if rng.random() < .5 else int(rng.integers(0, tot + 1))
    act = np.sort(rng.choice(tot, k, replace=False)).astype(np.int32) if tot else \
        np.zeros(0, np.int32)
    if len(act) == 0 and tot:
        act = np.array([0], np.int32)
    w = (rng.normal(size=tot) * (rng.random(tot) < .6)).astype(dt)
    P1 = rng.uniform(0, .5, p).astype(dt)
    lb = rng.random() < .5
    ub = rng.random() < .5
    lo = rng.uniform(-1, 0, p).astype(dt) if lb else np.zeros(0, dt)
    hi = rng.uniform(0, 1, p).astype(dt) if ub else np.zeros(0, dt)
    g = rng.normal(size=tot).astype(dt)
    if name == "_norm_min_subgrad":
        return [act, w, g, P1, ic, lb, lo, ub, hi], (), []
    A = rng.normal(size=(len(act) + 2, len(act))).astype(dt)
    Q = np.ascontiguousarray(A.T @ A / (len(act) + 2) + dt(.05) * np.eye(len(act), dtype=dt))
    if rng.random() < .3:
        Q = np.asfortranarray(Q)
    return ([act, w, P1, Q, g, int(rng.integers(1, 60)), float(rng.choice([1e-4, 1e-8])),
             np.random.RandomState(int(rng.integers(2**31))), ic, int(rng.random() < .5),
             lb, lo, ub, hi, 1e-12], (1, 4), [])


def call(mods, modname, name, args):
    f = getattr(mods.get(modname), name, None)
    if f is None:
        raise Unavailable(name)
    try:
        return f(*args)
    except TypeError as e:
        raise Unavailable(f"{name}: {e}") from None


def canaries_intact(can):
    """No byte of the buffer outside the view changed."""
    for v, b, before in can:
        cur = b.copy()
        # restore the view's cells, then everything must be as before
        off = (v.__array_interface__["data"][0] - b.__array_interface__["data"][0]) // b.itemsize
        st = v.strides[0] // b.itemsize if len(v) else 1
        idx = off + st * np.arange(len(v))
        cur[idx] = before[idx]
        if not np.array_equal(cur, before):
            return False
    return True
