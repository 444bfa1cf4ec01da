import numpy as np
from gftool import linearprediction as lp
from vf import attempt, enc

SH = {"none": (), "3": (3,), "2x2": (2, 2)}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 4)):
            sid = "/".join("-".join(map(str, v)) if isinstance(v, list) else str(v) for v in (sc[k] for k in sorted(sc))) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            {"covar": coeff, "burg": coeff, "predict": predict, "continue": cont, "companion": companion, "reject": reject}[sc["op"]](R, sc, sid, R.rng(sid), rep)


def noise(rng, shape, dtype):
    if dtype in ("int", "uint8"):
        return np.asarray(rng.integers(0 if dtype == "uint8" else -20, 21, shape)).astype(dtype)
    x = rng.normal(size=shape)
    return x + 1j*rng.normal(size=shape) if dtype == "complex" else x


def roots(rng, n, dtype, kind="stable"):
    """Well separated roots, closed under conjugation for real dtype."""
    mod = {"stable": lambda k: 0.95 - 0.1*(k % 4), "growing": lambda k: 1.1 + 0.08*(k % 4), "marginal": lambda k: 0.994 if k % 2 else 1.004, "edge": lambda k: 1 + (4e-5, -3e-5, 2e-6, -1e-6)[k % 4], "faint": lambda k: 0.97 if k >= n - 2 + n % 2 else 0.5 - 0.05*(k % 4), "none-kept": lambda k: 1.05 + 0.1*(k % 4),
           "mixed": lambda k: (0.9 - 0.05*k) if k % 2 else (1.1 + 0.05*k)}[kind]
    if dtype == "complex":
        off = rng.uniform(0, 2*np.pi)
        return np.array([mod(k)*np.exp(1j*(off + 2*np.pi*(k + rng.uniform(-0.2, 0.2))/n)) for k in range(n)])
    r = []
    m = n//2
    for k in range(m):
        z = mod(k)*np.exp(1j*np.pi*(k + 0.5 + rng.uniform(-0.2, 0.2))/max(m, 1)*0.9)
        r += [z, z.conjugate()]
    if n % 2:
        r.append(mod(m)*rng.choice([-1, 1]))
    return np.array(r) + 0j


def exponentials(rng, shape, n, L, dtype, weak=False):
    """Sum of the exponentials L**k, all with amplitude of order one."""
    k = np.arange(n)
    amp = rng.uniform(0.5, 1.5, shape + L.shape)
    if weak:
        amp[..., 2*(len(L)//4):] *= 1e-7
    if dtype == "complex":
        amp = amp*np.exp(2j*np.pi*rng.uniform(size=shape + L.shape))
        return (amp[..., np.newaxis, :]*L**k[:, np.newaxis]).sum(axis=-1)
    amp[..., 1:2*(len(L)//2):2] = amp[..., 0:2*(len(L)//2):2]
    return (amp[..., np.newaxis, :]*L**k[:, np.newaxis]).sum(axis=-1).real


def coeff(R, sc, sid, rng, rep):
    o, shape, dtype = sc["order"], SH[sc["shape"]], sc["dtype"]
    n = {"min": 2*o + (0 if sc["op"] == "covar" else 1), "odd": 2*o + 3, "long": 4*o + 8, "under": o + 2}[sc["len"]]
    if sc["data"] == "noise":
        x = noise(rng, shape + (n,), dtype)
    elif sc["data"] == "damped":
        x = exponentials(rng, shape, n, roots(rng, 2, dtype), dtype) + 0.1*noise(rng, shape + (n,), dtype)
    elif sc["data"] == "cut":
        L = roots(rng, o - 2, dtype)
        x = exponentials(rng, shape, n, L, dtype)
        for v in x.reshape(-1, n):
            s = np.linalg.svd(np.stack([v[k:n - o + k] for k in range(o)]), compute_uv=False)
            if s[o - 3] < 1e-3*s[0]:
                return
        x = x + 1e-10*noise(rng, shape + (n,), dtype)
    else:
        x = exponentials(rng, shape, n, roots(rng, o if sc["data"] != "exact-low" else max(1, o - 2), dtype), dtype, sc["data"] == "exact-weak")
    kw = {"none": {}, "given": dict(rcond=1e-11), "cut": dict(rcond=1e-6)}[sc["rcond"]]
    f = (lambda: lp.pcoeff_covar(x, order=o, **kw)) if sc["op"] == "covar" else (lambda: lp.pcoeff_burg(x, order=o))
    R.batch(sid, sc["op"], f, [dict(x=v, roots=L if sc["data"] == "cut" else []) for v in x.reshape(-1, n)], shape, pick=lambda t: dict(a=t[0], rho=t[1]), core=dict(a=(o,), rho=()), order=o, data=sc["data"])


def coefs(L, dtype):
    p = np.poly(L)
    return p[1:].real.copy() if dtype == "real" else p[1:] + 0j


def predict(R, sc, sid, rng, rep):
    o, dtype, num = sc["order"], sc["dtype"], sc["num"]
    if sc["shape"] == "bcast":
        shape, ls = (3,), ()
    else:
        shape = ls = SH[sc["shape"]]
    size = int(np.prod(ls, dtype=int))
    xtype, dtype = dtype, {"int": "real", "uint8": "real", "real-cplx": "complex"}.get(dtype, dtype)
    L = np.array([roots(rng, o, dtype, sc["roots"]) for _ in range(size)]).reshape(ls + (o,))
    a = np.array([coefs(q, dtype) for q in L.reshape(-1, o)]).reshape(ls + (o,))
    n = o + int(rng.integers(0, 5))
    x = noise(rng, shape + (n,), xtype)
    if sc["roots"] == "faint":  # the slowly decaying components are hardly visible in the data
        k = np.arange(n) - n + 1
        slow = abs(L) > 0.9
        amp = rng.uniform(0.5, 1.5, shape + (1,))*np.where(slow, 1e-9, 1.0)
        x = np.sum(amp[..., np.newaxis, :]*L[..., np.newaxis, :]**k[:, np.newaxis], axis=-1)
        x = x if dtype == "complex" else x.real
    kw = {"default": {}, "false": dict(stable=False), "true": dict(stable=True)}[sc["stable"]]
    b = lambda v, k: np.broadcast_to(v, shape + (k,)).reshape(-1, k)
    rows = [dict(x=p, a=q, roots=r) for p, q, r in zip(b(x, n), b(a, o), b(L, o))]
    R.batch(sid, "predict", lambda: lp.predict(x, a, num=num, **kw), rows, shape, core=(n + num,), num=num, stable=sc["stable"] == "true", faint=sc["roots"] == "faint")


def cont(R, sc, sid, rng, rep):
    o, dtype, shape = sc["order"], sc["dtype"], SH[sc["shape"]]
    n = 4*o + 3
    total = sum(sc["seq"])
    truth = None
    if sc["method"] == "covar":
        truth = exponentials(rng, shape, n + total, roots(rng, o, dtype), dtype)
        x = truth[..., :n].copy()
    else:
        x = noise(rng, shape + (n,), dtype)
    val, exc = attempt(lambda: lp.pcoeff_covar(x, order=o) if sc["method"] == "covar" else lp.pcoeff_burg(x, order=o))
    if exc:
        R.add(sid, dict(op="continue", exc=exc, sh=True, rows=[]))
        return
    a = val[0]
    evs = []
    box = {}
    for num in sc["seq"]:
        m = x.shape[-1]
        rows = [dict(x=p, a=q, truth=t) for p, q, t in zip(x.reshape(-1, m), a.reshape(-1, o), truth.reshape(-1, n + total) if truth is not None else [[]]*len(x.reshape(-1, m)))]

        def f():
            box["x"] = lp.predict(x, a, num=num)
            return box["x"]
        evs.append(R.ev("continue", f, rows, shape, core=(m + num,), num=num))
        if evs[-1]["exc"] or not evs[-1]["sh"]:
            break
        x = box["x"]
    R.add(sid, *evs)


def companion(R, sc, sid, rng, rep):
    o, shape = sc["order"], SH[sc["shape"]]
    a = rng.integers(1, 9, shape + (o + 1,)) if sc["dtype"] == "int" else noise(rng, shape + (o + 1,), sc["dtype"])
    R.batch(sid, "companion", lambda: lp.companion(a), [dict(a=v) for v in a.reshape(-1, o + 1)], shape, core=(o, o))


def reject(R, sc, sid, rng, rep):
    x = noise(rng, (8,), "complex")
    w = sc["what"]
    zb = noise(rng, (3, 4), "real")
    zb[1, 0] = 0
    f = {"order=N": lambda: lp.pcoeff_covar(x, order=8), "order>N": lambda: lp.pcoeff_covar(x, order=11), "order=N-1": lambda: lp.pcoeff_covar(x, order=7),
         "num=-1": lambda: lp.predict(x, x[:3], num=-1), "num=-7": lambda: lp.predict(x, x[:3], num=-7), "num=0": lambda: lp.predict(x, x[:3], num=0),
         "companion-short": lambda: lp.companion(np.array([1.0])), "companion-zero": lambda: lp.companion(np.array([0.0, 1, 2])),
         "companion-zero-batch": lambda: lp.companion(zb), "companion-ok": lambda: lp.companion([1, 0])}[w]
    R.error(sid, "reject", f, must=w not in ("order=N-1", "num=0", "companion-ok"))
