import numpy as np
from gftool import linalg
from vf import attempt

SH = {"none": (), "3": (3,), "2x2": (2, 2), "2": (2,), "0": (0,)}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 8)):
            sid = "/".join(str(sc[k]) for k in sorted(sc)) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            {"orth_compl": orth, "orth-reject": orth_reject, "lstsq_ec": ec, "truncate": truncate, "inconsistent": inconsistent, "no-unknowns": no_unknowns, "mismatch": mismatch}[sc["op"]](R, sc, sid, R.rng(sid))


def rand(rng, shape, dtype):
    if dtype == "int":
        return rng.integers(-5, 6, shape)
    x = rng.normal(size=shape)
    return x + 1j*rng.normal(size=shape) if dtype == "complex" else x


def orth(R, sc, sid, rng):
    n, m, shape = sc["n"], sc["m"], SH[sc["shape"]]
    a = rand(rng, shape + (n, m), sc["dtype"])
    if sc["rank"] == "repeated":
        a[..., -1] = a[..., 0]
    elif sc["rank"] == "zero":
        a[..., :, 0] = 0
    arg = np.asfortranarray(a) if rng.uniform() < 0.3 else a
    size = int(np.prod(shape, dtype=int))
    R.batch(sid, "orth_compl", lambda: linalg.orth_compl(arg), [dict(a=v) for v in a.reshape((size, n, m))], shape, core=(n - m, n), n=n, m=m)


def orth_reject(R, sc, sid, rng):
    a = rng.normal(size=SH[sc["shape"]] + (sc["n"], sc["m"]))
    R.error(sid, "orth-reject", lambda: linalg.orth_compl(a))


def ec(R, sc, sid, rng):
    m, n, l = sc["m"], sc["n"], sc["l"]
    a, b = rand(rng, (m, n), sc["a"]), rand(rng, (m,), sc["a"])
    c = rand(rng, (l, n), sc["c"])
    if l == n:
        c = c + 3*np.eye(n)
    d = rand(rng, (l,), sc["c"])
    kw = {}
    if sc["case"] == "deficient" and n > 1:
        a[:, -1] = a[:, 0]
    elif sc["case"] == "zero-row":
        i = rng.integers(l)
        c[i], d[i] = 0, 0
    elif sc["case"] == "consistent":
        x = rand(rng, (n,), sc["a"] if sc["a"] == sc["c"] else "real")
        b, d = a @ x, c @ x
    elif sc["case"] == "ill":  # badly conditioned, but of full rank
        u, sv, vh = np.linalg.svd(a, full_matrices=False)
        a = (u*np.geomspace(1, 1e-8, sv.size)) @ vh
    elif sc["case"] == "rcond-arg":
        kw = dict(rcond=1e-14)
    elif sc["case"] == "tiny-c":
        u = 10.0**rng.uniform(-12, -6)
        c, d = c*u, d*u
    elif sc["case"] == "mixed-c":
        u = 10.0**rng.uniform(-9, 9, l)
        c, d = c*u[:, np.newaxis], d*u
    elif sc["case"] in ("tiny-a", "huge"):
        u = 10.0**(rng.uniform(-12, -6) if sc["case"] == "tiny-a" else rng.uniform(6, 12))
        a, b = a*u, b*u
    kappa = 1.0
    if l:
        rows = c[np.any(c != 0, axis=-1)]
        s = np.linalg.svd(rows/np.linalg.norm(rows, axis=-1, keepdims=True), compute_uv=False) if rows.size else [1.0]
        kappa = max(1.0, s[0]/s[-1])
    R.one(sid, "lstsq_ec", lambda: linalg.lstsq_ec(a, b, c, d, **kw), dict(a=a, b=b, c=c, d=d), core=1, n=n, kappa=int(kappa) + 1)


def truncate(R, sc, sid, rng):
    l, n = sc["l"], 5
    s = np.array([1.0, 0.8, 0.5, 1e-5, 0.7])
    a = np.zeros((7, n))
    a[:n] = np.diag(s)
    b = rng.normal(size=7)
    c = np.eye(n)[:l]
    d = rng.normal(size=l)
    R.one(sid, "truncate", lambda: linalg.lstsq_ec(a, b, c, d, rcond=float(sc["rcond"])), dict(b=b, d=d, s=s, rcond=float(sc["rcond"])), core=1)


def inconsistent(R, sc, sid, rng):
    n, l = sc["n"], sc["l"]
    a, b = rand(rng, (n + 2, n), sc["dtype"]), rand(rng, (n + 2,), sc["dtype"])
    c, d = rand(rng, (l, n), sc["dtype"]), rand(rng, (l,), sc["dtype"])
    c[-1], d[-1] = 0, float(sc["by"])
    R.error(sid, "inconsistent", lambda: linalg.lstsq_ec(a, b, c, d))


def no_unknowns(R, sc, sid, rng):
    m = sc["m"]
    v, exc = attempt(lambda: linalg.lstsq_ec(np.zeros((m, 0)), np.ones(m), np.zeros((0, 0)), np.zeros(0)))
    R.add(sid, dict(op="no-unknowns", exc=exc, sh=not exc and np.shape(v) == (0,), rows=[]))


def mismatch(R, sc, sid, rng):
    n, l = sc["n"], sc["l"]
    R.error(sid, "mismatch", lambda: linalg.lstsq_ec(rng.normal(size=(n + 1, n)), rng.normal(size=n + 1), np.zeros((0, n)), np.ones(l)))
