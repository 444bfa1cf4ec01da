import math
import numpy as np
import gftool as gt
from vf import attempt, enc


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 4)):
            one(R, sc, rep)


def make(rng, fn):
    r = float(rng.uniform(-3, 3))
    a = float(rng.uniform(0.2, 3))
    if fn == "linear":
        return dict(fn=fn, a=a, r=r), lambda m: a*(m - r), r
    if fn in ("fermi", "steep"):
        e = rng.uniform(-1, 1, 3)
        beta = float(rng.uniform(1, 20) if fn == "fermi" else rng.uniform(100, 1000))
        occ = float(rng.uniform(0.3, 2.7))

        def f(m):
            with np.errstate(all="ignore"):
                x = beta*(e - m)
                return float(np.sum(np.where(x > 0, np.exp(-abs(x))/(1 + np.exp(-abs(x))), 1/(1 + np.exp(-abs(x)))))) - occ
        return dict(fn=fn, e=enc(e), beta=beta, occ=occ), f, None
    if fn == "tanh":
        return dict(fn=fn, r=r), lambda m: math.tanh(m - r), r
    if fn == "cubic":
        return dict(fn=fn, a=a, r=r), lambda m: (m - r)**3 + a*(m - r), r
    if fn == "exp":
        a = min(a, 1.0)
        return dict(fn=fn, a=a, r=r), lambda m: math.expm1(min(a*(m - r), 700.)), r
    if fn == "kink":
        return dict(fn=fn, a=a, r=r), lambda m: a*(m - r) if m < r else m - r, r
    if fn == "plateau":
        a = min(a, 1.0)

        def f(m):
            d = m - r
            return d + a if d < -a else (d - a if d > a else 0.0)
        return dict(fn=fn, a=a, r=r), f, r
    if fn in ("never-above", "never-below"):
        s = -1 if fn == "never-above" else 1
        return dict(fn=fn), lambda m: math.tanh(m) + s*1.25, None
    if fn == "decreasing":
        return dict(fn=fn), lambda m: -math.tanh(m) + 0.01, None
    if fn == "nan":
        return dict(fn=fn), lambda m: 0.3 + m if abs(m) < 0.2 else float("nan"), None
    if fn == "raises":
        return dict(fn=fn), None, None
    if fn == "maxiter":
        return dict(fn=fn), lambda m: math.expm1(m) + 0.3*m**3 - 0.7, None


def one(R, sc, rep):
    sid = "/".join(f"{k}={sc[k]}" for k in sorted(sc)) + f"/{rep}"
    rng = R.rng(sid)
    fn = sc["fn"]
    f, call, root = make(rng, fn)
    kw, xtol = {}, 2e-12
    mu0 = 0.0
    near = root if root is not None else float(rng.uniform(-1, 1))
    where = sc["mu0"]
    if where != "default":
        mu0 = {"near": near + rng.uniform(-0.1, 0.1), "left": near - rng.uniform(1, 4), "right": near + rng.uniform(1, 4),
               "farleft": near - rng.uniform(20, 90), "farright": near + rng.uniform(20, 90), "exact": near,
               "remote": near + rng.choice([-1, 1])*10.0**rng.uniform(3, 7)}.get(where)
        if where.startswith("close"):
            if root is None:  # bisect for a root
                lo, hi = -60.0, 60.0
                for _ in range(200):
                    mid = 0.5*(lo + hi)
                    lo, hi = (mid, hi) if call(mid) < 0 else (lo, mid)
                near = hi
            edge = f["a"] if fn == "plateau" else 0.0
            mu0 = near + rng.choice([-1, 1])*(edge + rng.uniform(0.3, 3)*10.0**-int(where[5:]))
        if where == "remote" and fn in ("cubic", "exp"):   # overflow or too many iterations
            return
        if where.startswith("far") and fn == "exp":
            mu0 = near + (mu0 - near)/4
        mu0 = float(mu0)
        kw["mu0"] = mu0
    if sc["step"] != "default":
        kw["step0"] = {"small": 0.01, "large": 25.0, "tiny": 1e-9}[sc["step"]]
    if fn == "exp" and where == "farright":
        kw["step0"] = 1e-6
    k = sc.get("kw", "none")
    if k == "xtol":
        xtol = 1e-4
        kw["xtol"] = xtol
    elif k != "none":
        kw["method"] = k
        if k == "bisect":
            xtol = 2e-12
        kw["xtol"] = xtol
        kw["rtol"] = 1e-12
        if k == "ridder":
            kw["maxiter"] = 400
        if k == "bisect":
            kw["maxiter"] = 400
    if fn == "maxiter":
        kw["maxiter"] = 1
    events = []
    count = [0]

    def occ_root(m):
        count[0] += 1
        if count[0] > 2000:
            raise AssertionError("too many evaluations")
        if fn == "raises":
            if count[0] > 2:
                events.append(dict(op="badeval"))
                raise KeyError("x")
            v = 0.5 - 0.1*count[0]
        else:
            v = call(float(m))
        if v != v:
            events.append(dict(op="badeval"))
        else:
            events.append(dict(op="eval", mu=enc(float(m)), v=enc(v)))
        return v
    val, exc = attempt(lambda: gt.chemical_potential(occ_root, **kw))
    if exc:
        events.append(dict(op="raise", exc=exc))
    else:
        events.append(dict(op="return", mu=enc(float(val))))
    f = {a: (b if isinstance(b, (str, list)) else enc(b)) for a, b in f.items()}
    R.add(sid, *events, mu0=enc(mu0), f=f, xtol=enc(xtol), kind=sc["op"])
