import numpy as np
import gftool as gt
from fractions import Fraction


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(2, 12)):
            sid = "/".join(str(sc[k]) for k in sorted(sc)) + f"/{rep}"
            (times if "t" in sc else freqs)(R, sc, sid, R.rng(sid), rep)


def draw(rng, kind, n):
    s = rng.choice([-1, 1], n)
    if kind == "far":
        return 10.0**rng.uniform(0.5, 3, n)*np.exp(1j*np.pi*rng.uniform(0.02, 0.98, n))
    if kind == "veryfar":
        return 10.0**rng.uniform(3, 8, n)*np.exp(1j*np.pi*rng.uniform(0.02, 0.98, n))
    if kind == "mid":
        return rng.uniform(-1.5, 1.5, n) + 1j*rng.uniform(0.03, 1.5, n)
    if kind == "near":
        return rng.uniform(-1.2, 1.2, n) + 1j*10.0**rng.uniform(-9, -2, n)
    if kind == "edge":
        return s + 10.0**rng.uniform(-5, -1, n)*np.exp(1j*np.pi*rng.uniform(0.02, 0.98, n))
    if kind == "imag":
        return 1j*10.0**rng.uniform(-3, 2, n)
    if kind == "realout":
        return s*(1 + 10.0**rng.uniform(-2, 1, n)) + 0j
    return (rng.uniform(-0.1, 0.1, n)) + 1j*10.0**rng.uniform(-4, -1, n)


def freqs(R, sc, sid, rng, rep):
    op = sc["op"]
    shape = {"array": (6,), "scalar": (), "pycomplex": (), "batch": (3, 2)}[sc["shape"]]
    n = int(np.prod(shape, dtype=int))
    D = 1.0 if rep == 0 else (2 if rep == 1 else rng.uniform(0.3, 4))
    if sc["shape"] == "batch" and op not in ("stress_trafo", "bethez-dos"):
        D = rng.uniform(0.3, 4, (3, 1))
    if "e" in sc:
        z = {"inside": rng.uniform(-1, 1, n), "outside": rng.choice([-1, 1], n)*rng.uniform(1.001, 5, n), "edge": rng.choice([-1, 1], n)*(1 - 10.0**rng.uniform(-7, -1, n)),
             "zero": np.zeros(n)}[sc["e"]].reshape(shape)*D
        if sc["e"] == "edge" and n > 1:
            z.reshape(-1)[0] = D
    else:
        z = draw(rng, sc["z"], n)
        if sc["z"] == "veryfar":
            z[::2] = 1j*abs(z[::2])
        z = z.reshape(shape)*D
        if sc["half"] == "lower":
            z = z.conj()
        if op == "gf_z_inv":
            z = 1/z
    if sc["shape"] == "pycomplex":
        z = z.item()
    elif shape == ():
        z = z[()]
    dd = np.broadcast_to(D, shape).reshape(-1)
    Z = Fraction(sc.get("Z", "0"))
    Zf = int(Z) if Z.denominator == 1 else float(Z)
    be = gt.lattice.bethe
    f = {"gf_d1_z": lambda: be.gf_d1_z(z, half_bandwidth=D), "gf_d2_z": lambda: be.gf_d2_z(z, half_bandwidth=D), "gf_z_inv": lambda: be.gf_z_inv(z, half_bandwidth=D),
         "gf_z_inv-roundtrip": lambda: be.gf_z_inv(be.gf_z(z, half_bandwidth=D), half_bandwidth=D),
         "stress_trafo": lambda: gt.lattice.square.stress_trafo(z, half_bandwidth=D),
         "bethez-gf_z": lambda: gt.lattice.bethez.gf_z(z, half_bandwidth=D, coordination=Zf),
         "bethez-dos": lambda: gt.lattice.bethez.dos(z, half_bandwidth=D, coordination=Zf)}[op]
    rows = [dict(z=a, D=b, Z=Zf) for a, b in zip(np.ravel(np.asarray(z)), dd)]
    R.batch(sid, op, f, rows, shape)


def times(R, sc, sid, rng, rep):
    f = getattr(gt.lattice, sc["op"].split("-")[0]).gf_ret_t
    n = 6
    D = 1.0 if rep == 0 else rng.uniform(0.3, 4)
    t = {"small": 10.0**rng.uniform(-9, -4, n), "threshold": 1.2207e-4*rng.uniform(0.5, 2, n), "mid": 10.0**rng.uniform(-3, 0.5, n), "large": rng.uniform(3, 60, n), "zero": np.zeros(n), "huge": 10.0**rng.uniform(1.8, 3.3, n),
         "negative": -10.0**rng.uniform(-6, 1, n), "mixed": rng.permutation(np.r_[-rng.uniform(0, 3, 2), 0, rng.uniform(0, 3, 3)])}[sc["t"]]/D
    shape = (n,)
    c = {"none": 0, "zero": 0.0, "scalar": rng.normal(), "batch": rng.normal(size=(3, 1)), "withzero": rng.normal(size=(3, 1))*[[1], [0], [1]]}[sc["center"]]
    if sc["shape"] == "pycomplex":
        t, shape = float(t[0]), ()
    kw = {} if sc["center"] == "none" else dict(center=c)
    if sc["center"] in ("batch", "withzero"):
        shape = (3,) + (shape or (1,))
    tb, cb = np.broadcast_to(t, shape).ravel(), np.broadcast_to(c, shape).ravel()
    R.batch(sid, sc["op"], lambda: f(t, half_bandwidth=D, **kw), [dict(t=a, D=D, c=b) for a, b in zip(tb, cb)], shape)
