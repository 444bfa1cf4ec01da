import mpmath
import numpy as np
import gftool as gt

BAND = {"triangular": (-2/3, 4/3), "fcc": (-0.5, 1.5), "kagome": (-2/3, 4/3)}
VH = {"onedim": [], "square": [0], "sc": [1/3, -1/3], "bcc": [0], "honeycomb": [1/3, -1/3, 0], "lieb": [0, 0.5**0.5, -0.5**0.5], "bethe": [0], "box": [0],
      "triangular": [-4/9, 0], "fcc": [0, 0.5], "kagome": [0, 1/3, 2/3], "rectangular": []}
RTOL = {}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 6)):
            one(R, sc, rep)


def draw(rng, lat, kind, n, scale):
    lo, hi = BAND.get(lat, (-1, 1))
    if kind == "far":
        return rng.uniform(4, 30, n)*np.exp(1j*np.pi*rng.uniform(0.02, 0.98, n))
    if kind == "veryfar":
        return 10.0**rng.uniform(2, 9, n)*np.exp(1j*np.pi*rng.uniform(0.02, 0.98, n))
    if kind == "outside":
        x = np.where(rng.uniform(size=n) < 0.5, hi + rng.uniform(0.05, 2, n), lo - rng.uniform(0.05, 2, n))
        return x + 1j*10.0**rng.uniform(-6, 0, n)
    if kind == "realout":
        return np.where(rng.uniform(size=n) < 0.5, hi + rng.uniform(0.05, 2, n), lo - rng.uniform(0.05, 2, n)) + 0j
    if kind == "special":  # real points outside of the band with simple values
        c = np.array([-1, 1, 2, -2, 3, -3, 1.5, -1.5, 9/4, -9/4, 4, -4, 6, -6, 0.75, -0.75])
        c = c[(c < lo - 0.02) | (c > hi + 0.02)]
        return c[:n] + 0j if n <= len(c) else np.resize(c, n) + 0j
    x = rng.uniform(lo, hi, n)
    if kind == "mid":
        return x + 1j*rng.uniform(0.03, 1.5, n)
    if kind == "near1":
        return x + 1j*10.0**rng.uniform(-3, -1, n)
    if kind == "near2":
        return x + 1j*10.0**rng.uniform(-6, -3, n)
    if kind == "near3":
        return x + 1j*10.0**rng.uniform(-12, -6, n)
    if kind == "imag":
        return 1j*10.0**rng.uniform(-2, 1, n)
    if kind == "line":  # exactly representable real parts
        return rng.choice([lo, hi, 0, 0.5, -0.5, 0.25, 1, -1] + VH[lat], n) + 1j*10.0**rng.uniform(-2, 0.5, n)
    if kind == "small":
        return (rng.uniform(-0.05, 0.05, n)) + 1j*10.0**rng.uniform(-3, -1, n)
    if kind == "vanhove":
        v = VH[lat] + ([(1 - scale)/(1 + scale), -(1 - scale)/(1 + scale)] if lat == "rectangular" else [])
        if not v:
            v = [lo, hi]
        return rng.choice(v, n) + 10.0**rng.uniform(-4, -1, n)*np.exp(1j*np.pi*rng.uniform(0.02, 0.98, n))
    if kind == "edge":
        return rng.choice([lo, hi], n) + 10.0**rng.uniform(-4, -1, n)*np.exp(1j*np.pi*rng.uniform(0.02, 0.98, n))


def multi(R, sid, rng, sc, rep, dps):
    """The multi-precision variant takes one number and gives as many digits as the context has."""
    if R.only is not None and sid != R.only:
        return
    D = [1.0, 2, rng.uniform(0.3, 4)][(rep + dps) % 3]
    z = draw(rng, "sc", sc["z"], 4, 1)*D
    if sc["half"] == "lower":
        z = z.conj()
    with mpmath.workdps(dps):
        calls = []
        for k, v in enumerate(z):
            v = mpmath.mpc(v) if k % 2 else complex(v)
            DD = mpmath.mpf(D) if k < 2 else D
            calls.append(R.ev("gf_z", lambda: gt.lattice.sc.gf_z_mp(v, half_bandwidth=DD), [dict(z=v, D=D, scale=1)], (),
                              pick=lambda o: {"o": np.array(o, dtype=object)}, lat="sc", rtol="1e-%d" % (0.7*dps), ztol="1e-%d" % (0.8*dps), terms=44 if dps == 15 else 90))
        R.add(sid, *calls)


def one(R, sc, rep):
    lat = sc["lat"]
    sid = "/".join(str(sc[k]) for k in ("lat", "z", "half", "via", "shape")) + f"/{rep}"
    rng = R.rng(sid)
    mod = getattr(gt.lattice, lat)
    via = sc["via"]
    if via.startswith("mp"):
        return multi(R, sid, rng, sc, rep, int(via[2:]))
    name = {"gf_z": "gf_z", "alias": "gf_z"}.get(via, "hilbert_transform")
    f = getattr(gt, f"{lat}_{name}", None) if via.startswith("alias") else getattr(mod, name, None)
    if f is None:
        return
    scale = rng.uniform(0.2, 3) if lat == "rectangular" else 1
    kw = dict(scale=scale) if lat == "rectangular" else {}
    D = rng.uniform(0.3, 4)
    if rep == 0:
        D = 1.0
    if rep == 1:
        D = 2
    shape = {"array": (6,), "scalar": (), "pycomplex": (), "batch": (3, 2), "empty": (0,), "longdouble": (3,)}[sc["shape"]]
    n = int(np.prod(shape, dtype=int))
    if sc["shape"] == "batch":
        D = rng.uniform(0.3, 4, (3, 1))
    s0 = scale if scale <= 1 else 1/scale
    if sc["z"] == "special":
        shape, n = (12,), 12
    z = draw(rng, lat, sc["z"], n, s0).reshape(shape)*(D if sc["z"] != "special" else 1)
    if sc["z"] == "special":
        D = [1.0, 0.5, 0.9][rep % 3]
    if sc["half"] == "lower":
        z = np.conj(z)
    if sc["shape"] == "pycomplex":
        z = complex(z)
    elif sc["shape"] == "longdouble":
        z = z.astype(np.clongdouble)
    elif sc["shape"] == "scalar":
        z = np.complex128(z)
    zz = np.ravel(np.asarray(z))
    dd = np.broadcast_to(D, shape).reshape(-1)
    rows = [dict(z=a, D=b, scale=scale) for a, b in zip(zz, dd)]
    R.batch(sid, "gf_z", lambda: f(z, half_bandwidth=D, **kw), rows, shape, lat=lat, rtol="1e-10", ztol="1e-13", terms=44, **({"nocorrupt": 1} if n == 0 else {}))
