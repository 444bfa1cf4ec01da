import numpy as np
from gftool import polepade as P
from vf import attempt

CHEB = np.polynomial.chebyshev.chebvander


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 5)):
            sid = "/".join(str(sc[k]) for k in sorted(sc)) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            {"continuation": cont, "number_poles": number, "poles": roots, "zeros": roots, "asymptotic": asym, "residues": resid, "approx": approx, "reject": reject}[sc["op"]](R, sc, sid, R.rng(sid))


def spread(rng, n, lo, hi):
    """Well separated points in [lo, hi]."""
    if n == 0:
        return np.zeros(0)
    edges = np.linspace(lo, hi, 2*n + 1)
    return rng.permutation(edges[0:2*n:2] + (edges[1] - edges[0])*rng.uniform(0.3, 1, n))


def model(rng, nz, m, mesh):
    """Zeros and poles, all well separated from each other and (real mesh) from the data."""
    both = spread(rng, nz + m, -1.5, 1.5)
    zs, ps = both[:nz], both[nz:]
    if mesh.endswith("real"):
        zs, ps = zs + 1.3j*rng.choice([-1, 1], nz), ps + 1.0j*rng.choice([-1, 1], m)
    return zs, ps


def points(rng, mesh, n):
    if mesh == "iw":
        return 1j*np.pi*(2*np.arange(n) + 1)/rng.uniform(8, 12)
    if mesh == "near-iw":
        return 1j*np.pi*(2*np.arange(n) + 1)/rng.uniform(8, 12)*(1 + 0.008j*rng.choice([-1, 1], n))
    if mesh == "upper":
        return np.linspace(-2, 2, n) + 1j*rng.uniform(0.4, 1.2, n)
    return np.linspace(-2, 2, n)


def size(kind, m, deg):
    n = 2*m + deg + 6
    return {"few": n, "odd": n + 3 + (n + 3) % 2 + 1, "even": n + 3 + (n + 3) % 2, "many": 120}[kind]


def val(a, zs, ps, x):
    x = np.asarray(x)[..., np.newaxis]
    return a*np.prod(x - zs, axis=-1)/np.prod(x - ps, axis=-1)


def cont(R, sc, sid, rng):
    m, deg, mesh = sc["m"], sc["deg"], sc["mesh"]
    zs, ps = model(rng, m + deg, m, mesh)
    a = rng.uniform(0.7, 1.5)
    if sc["asym"] == "faint":
        a = a*10.0**rng.uniform(-7, -3)
    if sc["asym"] == "complex":
        a = a*np.exp(0.7j)
    z = points(rng, mesh, size(sc["pts"], m, deg) if sc["pts"] != "many" or mesh != "iw" else 60)
    f = val(a, zs, ps, z)
    kw = {}
    if sc["weight"] == "given":
        kw["weight"] = rng.uniform(0.5, 2, z.size)
    if sc["weight"] == "masked":
        kw["weight"] = rng.uniform(0.5, 2, z.size)
        out = rng.choice(z.size, 2 if sc["pts"] != "many" else 30, replace=False)
        kw["weight"][out] = 0
        f = f.astype(complex)
        f[out] = rng.normal(size=out.size) + 1j*rng.normal(size=out.size)
    res = np.array([a*np.prod(p - zs)/np.prod([p - q for q in np.delete(ps, i)]) for i, p in enumerate(ps)], dtype=complex)
    moments = np.array([np.sum(res*ps**k) for k in range(sc["moments"])])
    if sc["moments"]:
        kw["moments"] = moments if rng.uniform() < 0.5 else moments.tolist()
    if sc["rotate"] == "no":
        kw["rotate"] = False
    if sc["rotate"] == "yes":
        kw["rotate"] = True
    if sc["asym"] == "complex":
        kw["real_asymp"] = False
    if deg != -1 or rng.uniform() < 0.5:
        kw["degree"] = deg
    x = np.array([0.3 + 0.5j, -1.1 + 0.8j, 2.5 + 0.1j]) if mesh != "real" else np.array([0.3 + 0.2j, -1.1 - 0.3j, 2.5])
    order = np.arange(1, 4)

    def pick(c):
        return dict(oz=c.zeros, op=c.poles, ores=c.residues, oa=c.amplitude, ozp=c.eval_zeropole(x), opf=c.eval_polefct(x), om=c.moments(order))
    R.one(sid, "continuation", lambda: P.continuation(z, f, **kw), dict(zs=zs, ps=ps, a=a, x=x, moments=moments), core=dict(oz=1, op=1, ores=1, oa=0, ozp=(3,), opf=(3,), om=(3,)), pick=pick, nocorrupt=1)


def number(R, sc, sid, rng):
    m, deg = sc["m"], sc["deg"]
    zs, ps = model(rng, m + deg, m, sc["mesh"])
    z = points(rng, sc["mesh"], size(sc["pts"], m, deg))
    f = val(rng.uniform(0.5, 2), zs, ps, z)
    kw = dict(degree=deg)
    if sc["weight"] == "given":
        kw["weight"] = rng.uniform(0.5, 2, z.size)
    if sc["start"] != "none":
        kw["n_poles0"] = max({"true": m, "less": m - 1, "more": m + 1}[sc["start"]], 1, -deg)
    o, exc = attempt(lambda: P.number_poles(z, f.astype(complex), **kw))
    R.add(sid, dict(op="number_poles", exc=exc, sh=True, rows=[], m=m, got=-1 if exc else int(o)))


def roots(R, sc, sid, rng):
    m, deg = sc["m"], sc["deg"]
    mesh = "real" if sc["mesh"] == "odd-real" else sc["mesh"]
    zs, ps = model(rng, m + deg, m, mesh)
    n = size(sc["pts"], m, deg)
    z = points(rng, mesh, n)
    if sc["mesh"] == "odd-real":  # an odd function on a symmetric mesh: its median vanishes
        if m != 2 or deg != -1:
            return
        q = rng.uniform(0.5, 2)
        zs, ps = np.array([0.0]), np.array([1j*q, -1j*q])
    f = val(rng.uniform(0.5, 2), zs, ps, z)
    if sc["mesh"] == "odd-real":
        f = f.real
    kw = {}
    if sc["weight"] == "given":
        kw["weight"] = rng.uniform(0.5, 2, z.size)
    if sc["basis"] == "cheb":
        if m > 4 or m + deg > 4:
            return
        kw["vandermond"] = lambda z, deg: CHEB(z, deg)
    if sc["op"] == "poles":
        if deg != -1 or rng.uniform() < 0.5:
            kw["n"] = m + deg
        g = lambda: P.poles(z, f, m=m, **kw)
    else:
        if deg != -1 or rng.uniform() < 0.5:
            kw["n"] = m + deg
        g = lambda: P.zeros(z, f, ps, **kw)
    R.one(sid, sc["op"], g, dict(zs=zs, ps=ps), core=1, nocorrupt=1)


def asym(R, sc, sid, rng):
    zs, ps = model(rng, sc["nz"], sc["m"], "upper")
    z = points(rng, "upper", 11 if sc["pts"] == "odd" else 14)
    f = val(1.3, zs, ps, z)
    if sc["data"] == "noise":
        f = f*(1 + 0.1*rng.normal(size=z.size) + 0.1j*rng.normal(size=z.size))
    w = rng.uniform(0.5, 2, z.size) if sc["weight"] == "given" else np.ones(z.size)
    kw = dict(weight=w) if sc["weight"] == "given" else {}
    R.one(sid, "asymptotic", lambda: P.asymptotic(z, f, zs, ps, **kw), dict(z=z, f=f, zs=zs, ps=ps, w=w), pick=lambda r: dict(mean=r[0], std=r[1]), weighted=sc["weight"] == "given", nocorrupt=1)


def resid(R, sc, sid, rng):
    m, nm = sc["m"], sc["moments"]
    if nm > m + 1:
        return
    _, ps = model(rng, 0, m, "real" if sc["dtype"] == "complex" else "upper")
    z = points(rng, "real" if sc["dtype"] == "complex" else "upper", 11 if sc["pts"] == "odd" else 14)
    res = rng.normal(size=m)
    f = (res/(z[:, np.newaxis] - ps)).sum(-1)
    if sc["data"] == "noise":
        f = f + 0.3*rng.normal(size=z.size)
    mom = np.array([np.sum(res*ps**k) for k in range(nm)])
    if sc["data"] == "noise":
        mom = mom + 0.2*rng.normal(size=nm)
    w = {"none": np.ones(z.size), "given": rng.uniform(0.5, 2, z.size), "int": rng.integers(1, 4, z.size)}[sc["weight"]]
    kw = {} if sc["weight"] == "none" else dict(weight=w)
    if nm:
        kw["moments"] = mom
    R.one(sid, "residues", lambda: P.residues_ols(z, f, ps, **kw), dict(z=z, f=f, ps=ps, w=w, moments=mom), core=dict(o=1, resid=0),
          pick=lambda r: dict(o=r[0], resid=np.asarray(r[1]).reshape(-1)[0]), over=nm > m, nocorrupt=1)


def approx(R, sc, sid, rng):
    nz, m = sc["nz"], sc["m"]
    g = (lambda n: rng.normal(size=n) + 1j*rng.normal(size=n)) if sc["dtype"] == "complex" else (lambda n: rng.normal(size=n))
    zs, ps, res, a = g(nz), g(m), g(m), rng.normal()
    sh = {"scalar": (), "array": (4,), "2d": (2, 3)}[sc["z"]]
    x = np.asarray(rng.uniform(-2, 2, sh) + 1j*rng.uniform(2, 4, sh))
    order = np.arange(1, 5)
    c = lambda: P.PadeApprox(zeros=zs, poles=ps, residues=res, amplitude=a)
    k = max(x.size, 1)

    def flat(v):
        assert np.shape(v) == sh, "shape"
        return np.asarray(v).reshape(-1)
    R.one(sid, "approx", lambda: dict(ozp=flat(c().eval_zeropole(x)), opf=flat(c().eval_polefct(x)), om=c().moments(order)), dict(zs=zs, ps=ps, res=res, a=a, x=x.reshape(-1)), core=dict(ozp=(k,), opf=(k,), om=(4,)), pick=lambda d: d)


def reject(R, sc, sid, rng):
    z = points(rng, "upper", 20)
    f = 1/(z - 0.3) + 0.5/(z + 0.4)
    noise = f + rng.normal(size=20)
    w = sc["what"]
    g = {"degree-1": lambda: P.continuation(z, f, degree=1), "degree-2": lambda: P.continuation(z, f, degree=3), "start-large": lambda: P.number_poles(z, f, n_poles0=15),
         "moments-many": lambda: P.residues_ols(z, f, np.array([0.3, -0.4]), moments=[1.0, 2.0, 3.0]), "no-solution": lambda: P.number_poles(z, noise)}[w]
    R.error(sid, "reject", g, want="RuntimeError" if w == "no-solution" else "ValueError")
