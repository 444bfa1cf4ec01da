import inspect
import numpy as np
import mpmath
import gftool as gt

BAND = {"triangular": (-2/3, 4/3), "fcc": (-0.5, 1.5), "kagome": (-2/3, 4/3)}
VH = {"onedim": [1, -1], "square": [0], "sc": [1/3, -1/3], "bcc": [0], "honeycomb": [1/3, -1/3, 0], "lieb": [0, 0.5**0.5, -0.5**0.5], "bethe": [0], "box": [0],
      "triangular": [-4/9, 0], "fcc": [0, 0.5, -0.5], "kagome": [0, 1/3, 2/3], "rectangular": []}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 5) if sc["op"] == "dos" else R.n(1, 3)):
            one(R, sc, rep)


def draw(rng, lat, kind, n, scale, D):
    lo, hi = BAND.get(lat, (-1, 1))
    if kind == "inside":
        return rng.uniform(lo, hi, n)*D
    if kind == "grid":
        return np.linspace(lo, hi, n + 2)[1:-1]*D
    if kind == "outside":
        return np.where(rng.uniform(size=n) < 0.5, hi + rng.uniform(0.01, 1, n), lo - rng.uniform(0.01, 1, n))*D
    if kind == "far":
        return rng.uniform(3, 100, n)*rng.choice([-1, 1], n)*D
    if kind == "edgein":
        d = 10.0**rng.uniform(-7, -1, n)
        return np.where(rng.uniform(size=n) < 0.5, hi - d, lo + d)*D
    if kind == "edgeout":
        d = 10.0**rng.uniform(-9, -1, n)
        return np.where(rng.uniform(size=n) < 0.5, hi + d, lo - d)*D
    if kind == "vanhove":
        v = VH[lat] + ([(1 - scale)/(1 + scale), -(1 - scale)/(1 + scale)] if lat == "rectangular" else [])
        return (rng.choice(v, n) + 10.0**rng.uniform(-6, -2, n)*rng.choice([-1, 1], n))*D
    if kind == "small":
        return 10.0**(rng.uniform(-7, -1, n) if n < 12 else np.linspace(-8, -1, n) + rng.uniform(0, 0.6, n))*rng.choice([-1, 1], n)*D
    if kind == "integer":
        return np.arange(-(n//2), n - n//2)*2
    if kind == "hair":  # a hair's breadth beside the band edges and van Hove points
        v = [lo, hi] + VH[lat] + ([(1 - scale)/(1 + scale), -(1 - scale)/(1 + scale)] if lat == "rectangular" else [])
        return (rng.choice(v, n) + 10.0**rng.uniform(-14, -6, n)*rng.choice([-1, 1], n))*D
    if kind == "exact":
        return rng.choice([lo, hi, 0, 0.5, -0.5, 0.25, 1, -1] + VH[lat], n)*D


def one(R, sc, rep):
    lat, pts, mp = sc["lat"], sc["pts"], sc["op"] == "dos_mp"
    sid = "/".join(str(sc[k]) for k in ("op", "lat", "pts", "via", "shape")) + f"/{rep}"
    rng = R.rng(sid)
    mod = getattr(gt.lattice, lat)
    f = getattr(gt, f"{lat}_dos", None) if sc["via"] == "alias" else getattr(mod, sc["op"], None)
    if f is None:
        return
    scale = 1
    if lat == "rectangular":
        scale = rng.uniform(0.2, 3)
        if rep % 3 == 1:
            scale = 1/3
    kw = dict(scale=scale) if lat == "rectangular" else {}
    D = [1.0, 2, 1.5, 2.25, rng.uniform(0.3, 4), rng.uniform(0.3, 4)][rep % 6]
    if rep == 0 and pts in ("inside", "small", "vanhove"):
        D = rng.uniform(0.3, 4)
    if pts == "integer":
        D = 7 if rep % 2 else 7.5
    if sc["shape"] == "unit":
        D = 1
    if sc["via"] == "default":  # half-bandwidth one is the default
        if "half_bandwidth" not in inspect.signature(f).parameters or inspect.signature(f).parameters["half_bandwidth"].default is inspect.Parameter.empty:
            return
        g = f
        f = lambda e, half_bandwidth, **kw: g(e, **kw)
    dps = int(sc["via"]) if sc["via"].isdigit() else 15
    shape = {"array": (8,), "unit": (8,), "scalar": (), "pyfloat": (), "zerod": (), "batch": (3, 2), "empty": (0,), "fortran": (2, 3)}[sc["shape"]]
    if pts == "grid" and sc["shape"] == "array":
        shape = (19,)
    n = (12 if pts == "small" else 4) if mp else int(np.prod(shape, dtype=int))
    s0 = scale if scale <= 1 else 1/scale
    eps = draw(rng, lat, pts, n, s0, D)
    if mp:
        with mpmath.workdps(dps):
            # next to its series around zero, the simple cubic closed form loses some digits to cancellation
            digits = "1e-%d" % ((0.73 if lat == "sc" and pts == "small" else 0.85)*dps)
            calls = []
            for e in np.ravel(eps):
                e = int(e) if pts == "integer" else mpmath.mpf(float(e))
                DD = [mpmath.mpf(D), D][rep % 2]
                calls.append(R.ev("dos_mp", lambda: f(e, half_bandwidth=DD), [dict(e=e, D=D, scale=1)], (), pick=lambda o: {"o": np.array(o, dtype=object)},
                                  lat=lat, rtol=digits, ztol=digits, etol="1e-15", terms=44 if dps == 15 else 90))
            calls.sort(key=lambda e: e["exc"])
            R.add(sid, *calls)
        return
    eps = eps.reshape(shape)
    if sc["shape"] == "pyfloat":
        eps = eps.item()
    elif sc["shape"] == "scalar":
        eps = eps[()]
    elif sc["shape"] == "fortran":
        eps = np.asfortranarray(eps)
    rows = [dict(e=a, D=D, scale=scale) for a in np.ravel(np.asarray(eps))]
    R.batch(sid, "dos", lambda: f(eps, half_bandwidth=D, **kw), rows, shape, lat=lat, rtol="1e-10", ztol="1e-13", etol="1e-15", terms=44, **({"nocorrupt": 1} if n == 0 else {}))
