from functools import partial

import numpy as np
import gftool as gt
from gftool import beb
from gftool.matrix import decompose_her
from vf import enc

SH = {"none": (), "3": (3,), "2x2": (2, 2)}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 3)):
            sid = "/".join(str(sc[k]) for k in sorted(sc)) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            {"solve_root": solve, "spec-dec": specdec, "gf_loc_z": loc}.get(sc["op"], root)(R, sc, sid, R.rng(sid), rep)


def unitary(rng, n, cplx):
    a = rng.normal(size=(n, n)) + (1j*rng.normal(size=(n, n)) if cplx else 0)
    return np.linalg.qr(a)[0]


def hopping(rng, n, rank, cplx):
    """Hermitian matrix and its rank; the singular ones are exactly singular."""
    if rank == "identity":
        return np.eye(n), n
    if rank == "ones":
        return np.ones((n, n)), 1
    if rank == "one":
        v = rng.integers(1, 5, n)*rng.choice([-1, 1], n)/4
        if cplx:
            v = v + 1j*rng.integers(-4, 5, n)/4
        return np.outer(v, v.conj()), 1
    if rank == "zero-row" and n > 1:
        t, r = hopping(rng, n - 1, "full", cplx)
        return np.pad(t, ((0, 1), (0, 1))), r
    if rank == "low" and n > 2:  # rank two, one negative eigenvalue
        v = rng.integers(1, 5, (2, n))/4 + (1j*rng.integers(-2, 3, (2, n))/4 if cplx else 0)
        v[1, 0] += 2
        return np.outer(v[0], v[0].conj()) - np.outer(v[1], v[1].conj()), 2
    e = rng.uniform(0.3, 1.2, n)
    if rank.startswith("near"):  # close to, but not rank deficient
        e[-1] = 10.0**rng.uniform(-4, -2.3)*(1 if rank == "near+" else -1)
    if rank == "indefinite":
        e[::2] *= -1
    u = unitary(rng, n, cplx)
    t = (u*e) @ u.conj().T
    return (t + t.conj().T)/2, n


def specdec(R, sc, sid, rng, rep):
    n = sc["n"]
    t, rank = hopping(rng, n, sc["rank"], sc["dtype"] == "complex")
    kw = {}
    if sc["rcond"] == "small":
        kw = dict(rcond=1e-12)
    if sc["rcond"] == "cut":
        u = unitary(rng, n, sc["dtype"] == "complex")
        e = np.array([1.0, -0.5, 1e-5, -1e-6])[:n]
        rank = min(n, 2)
        t = (u*e) @ u.conj().T
        t = (t + t.conj().T)/2
        kw = dict(rcond=1e-4)

    def f():
        d = beb.SpecDec(*decompose_her(t)).truncate(**kw)
        us, sq, suh = d.partition(return_sqrts=True)
        us2, suh2 = d.partition()
        return dict(us=us, sq=sq, suh=suh, us2=us2, suh2=suh2, eig=d.eig, rec=d.reconstruct(kind="full"), tr=d.is_trunacted)
    box = {}
    e = R.ev("spec-dec", f, [dict(t=t)], (), core=dict(us=2, sq=1, suh=2, us2=2, suh2=2, eig=1, rec=2), pick=lambda x: (box.update(x), {k: v for k, v in x.items() if k != "tr"})[1],
             cut={"none": "none", "small": "1e-12", "cut": "1e-4"}[sc["rcond"]], exactrank=rank, trunc=None)
    e["trunc"] = bool(box.get("tr"))
    R.add(sid, e)


def lattice(rng, sc):
    if sc["lat"] == "bethe":
        D = float(rng.uniform(0.6, 1.6))
        return partial(gt.bethe_gf_z, half_bandwidth=D), dict(lat="bethe", D=enc(D))
    m = 4
    eps, w = rng.uniform(-1, 1, m), rng.uniform(0.1, 1, m)
    w = w/w.sum()
    return (lambda z: gt.pole_gf_z(z, poles=eps, weights=w)), dict(lat="levels", eps=enc(eps), w=enc(w), D="1")


def selfenergy(rng, shape, n, kind):
    """Matrix with negative semi-definite anti-Hermitian part."""
    if kind == "zero":
        return np.zeros(shape + (n, n))
    h = rng.normal(size=shape + (n, n))*0.3 + 1j*rng.normal(size=shape + (n, n))*0.3
    a = rng.normal(size=shape + (n, n))*0.4 + 1j*rng.normal(size=shape + (n, n))*0.4
    s = (h + np.swapaxes(h, -1, -2).conj())/2 - 1j*a @ np.swapaxes(a, -1, -2).conj()
    if kind == "diagonal":
        s = s*np.eye(n)
    return s


def rows_of(shape, n, z, s, t, **kw):
    b = lambda x, c: np.broadcast_to(x, shape + c).reshape((-1,) + c)
    rows = [dict(z=p, s=q, t=t) for p, q in zip(b(z, ()), b(s, (n, n)))] if s is not None else [dict(z=p, t=t) for p in b(z, ())]
    for k, v in kw.items():
        for r, x in zip(rows, b(v, (n,))):
            r[k] = x
    return rows


def loc(R, sc, sid, rng, rep):
    n, shape = sc["n"], SH[sc["shape"]]
    t, rank = hopping(rng, n, sc["rank"], sc["dtype"] == "complex")
    h, kw = lattice(rng, sc)
    z = np.asarray(rng.uniform(-1, 1, shape) + 1j*rng.uniform(0.2, 1, shape))
    s = selfenergy(rng, shape, n, sc["self"])
    if rep == 2 or (rep == 0 and sc["self"] == "diagonal"):   # the tail
        z = z*10.0**rng.uniform(2, 3.5)
    if sc["half"] != "upper":
        low = np.ones(shape, bool) if sc["half"] == "lower" else np.arange(3) % 2 == 1
        z = np.where(low, z.conj(), z)
        s = np.where(low[..., None, None], np.swapaxes(s, -1, -2).conj(), s)
    dg = {"default": {}, "true": dict(diag=True), "false": dict(diag=False)}[sc["diag"]]
    if rep % 2:
        dg["rcond"] = 1e-12
    R.batch(sid, "gf_loc_z", lambda: beb.gf_loc_z(z, s, hopping=t, hilbert_trafo=h, **dg), rows_of(shape, n, z, s, t), shape, core=(n, n) if sc["diag"] == "false" else (n,), diag=sc["diag"], **kw)


def root(R, sc, sid, rng, rep):
    n, shape = sc["n"], SH[sc["shape"]]
    t, rank = hopping(rng, n, sc["rank"], sc["dtype"] == "complex")
    h, kw = lattice(rng, sc)
    z = np.asarray(rng.uniform(-1, 1, shape) + 1j*rng.uniform(0.6, 1.5, shape))
    s = selfenergy(rng, shape, n, "matrix")
    if sc["self"] == "mixed":
        flip = rng.uniform(size=shape + (n,)) < 0.5
        d = np.einsum("...ii->...i", s)
        d.imag[flip] = 0.2*abs(d.imag[flip]) if d.ndim > 1 else 0.2*abs(d.imag[flip])
    e = rng.normal(size=(n,) if rep % 2 == 0 else shape + (n,))
    c = rng.uniform(0.2, 1, n)
    c = c/c.sum()
    dec = beb.SpecDec(*decompose_her(t)).truncate()
    f = beb.self_root_eq if sc["op"] == "self_root_eq" else beb.restrict_self_root_eq
    R.batch(sid, sc["op"], lambda: f(s.copy(), z, e, c, hopping_dec=dec, hilbert_trafo=h), rows_of(shape, n, z, s, t, e=e, c=c), shape, core=(n, n), nocorrupt=int(sc["op"] == "restrict"), **kw)


def solve(R, sc, sid, rng, rep):
    n, shape = sc["n"], SH[sc["shape"]]
    t, rank = hopping(rng, n, sc["rank"], sc["dtype"] == "complex")
    h, kw = lattice(rng, sc)
    num = int(np.prod(shape, dtype=int))
    z = (1j*np.pi*(2*np.arange(num) + 1)/rng.uniform(2, 8) if sc["z"] == "matsubara" else rng.uniform(-1.5, 1.5, num) + 0.5j).reshape(shape)
    if sc["z"] in ("lower", "both"):
        z = np.asarray(z.conj() if sc["z"] == "lower" else np.where(np.arange(num).reshape(shape) % 2 == 1, z.conj(), z))
    e = rng.uniform(-0.5, 0.5, (shape if sc["e"] == "batched" else ()) + (n,))
    c = rng.uniform(0.2, 1, n)
    c = c/c.sum()
    opt = {}
    if sc["start"] == "given":
        opt["self_beb_z0"] = selfenergy(rng, shape, n, "diagonal")*0.3
        if sc["z"] in ("lower", "both"):
            s0 = opt["self_beb_z0"]
            opt["self_beb_z0"] = np.where((z.imag < 0)[..., None, None], s0.conj(), s0)
    elif sc["start"] == "scalar":
        opt["self_beb_z0"] = np.diag(e.reshape(-1, n)[0]) - 0.1j*np.eye(n)
    if sc["tol"] != "default":
        opt["options"] = dict(fatol=float(sc["tol"]))
    R.batch(sid, "solve_root", lambda: beb.solve_root(z, e_onsite=e, concentration=c, hopping=t, hilbert_trafo=h, restricted=sc["restricted"], **opt), rows_of(shape, n, z, None, t, e=e, c=c), shape,
            pick=lambda x: dict(s=x), core=(n, n), restricted=sc["restricted"], rank=sc["rank"], tol="1e-5" if sc["tol"] == "default" else sc["tol"],
            hard=not sc["restricted"] or sc["tol"] != "default" or sc["start"] != "none", **kw)
