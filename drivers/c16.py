from functools import partial

import numpy as np
import gftool as gt
from gftool import cpa
from vf import enc

SH = {"none": (), "4": (4,), "2x3": (2, 3)}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 3)):
            sid = "/".join(str(sc[k]) for k in sorted(sc)) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            {"solve_root": solve, "fxdocc": fxdocc}.get(sc["op"], formula)(R, sc, sid, R.rng(sid), rep)


def hil(lat, D):
    return partial(getattr(gt.lattice, lat).gf_z, half_bandwidth=D)


def concentration(rng, shape, n, kind="generic"):
    if kind == "pure":
        return np.broadcast_to(np.eye(n)[0], shape + (n,)).copy()
    c = rng.uniform(0.2, 1, shape + (n,))
    if kind == "dilute":
        c[..., 0] *= 0.02
    if kind == "zero-component":
        c[..., -1] = 0
    return c/c.sum(axis=-1, keepdims=True)


def formula(R, sc, sid, rng, rep):
    n, lat = sc["n"], sc["lat"]
    D = 1.0 if rep == 0 else rng.uniform(0.5, 2)
    if sc["shape"] == "bcast":
        shape, sz, ss, se, sn = (2, 3), (3,), (2, 3), (2, 1), (3,)
    else:
        shape = sz = ss = se = sn = SH[sc["shape"]]
    z = rng.normal(size=sz) + 1j*rng.uniform(0.2, 2, sz)
    s = rng.normal(size=ss)*0.5 - 1j*rng.uniform(0, 1, ss)
    if sc["self"] != "physical":
        flip = rng.uniform(size=ss) < (0.5 if sc["self"] == "mixed" else 2)
        s = np.where(flip, s.real + 0.15j*abs(s.imag), s)   # z - s stays in the upper half-plane
    s = np.asarray(s)
    e = rng.normal(size=se + (n,))
    if sc["e"] == "complex":
        e = e - 1j*rng.uniform(0, 0.5, se + (n,))
    if sc["self"] == "unphysical-root":  # in a medium with gain
        s = s.real + 0.15j*abs(s.imag) + 0.01j
        e = np.broadcast_to(s[..., np.newaxis], se + (n,)).copy() if sc["shape"] != "bcast" else np.full(se + (n,), s.ravel()[0])
        s = np.broadcast_to(e[..., 0], ss).copy()
    if sc["self"] == "resonance":
        s = s*0.2
        g = hil(lat, D)(z - s)
        e = (s + (1 - 10.0**rng.uniform(-10, -2, np.shape(s)))/g)
        e = np.concatenate([e[..., np.newaxis], rng.normal(size=np.shape(s) + (n - 1,))], axis=-1)
        se = np.shape(s)
    c = concentration(rng, sn, n)
    b = lambda x: np.broadcast_to(x, shape).ravel()
    rows = [dict(z=p, s=q, e=u, c=v) for p, q, u, v in zip(b(z), b(s), np.broadcast_to(e, shape + (n,)).reshape(-1, n), np.broadcast_to(c, shape + (n,)).reshape(-1, n))]
    h = hil(lat, D)
    op = sc["op"]
    if op == "gf_cmpt_z":
        R.batch(sid, op, lambda: cpa.gf_cmpt_z(z, s.copy(), e, hilbert_trafo=h), rows, shape, core=(n,), lat=lat, D=enc(D))
        return
    f = {"self_root_eq": cpa.self_root_eq, "self_fxdpnt_eq": cpa.self_fxdpnt_eq, "restrict": cpa.restrict_self_root_eq}[op]
    R.batch(sid, op, lambda: f(s.copy(), z, e, c, hilbert_trafo=h), rows, shape, lat=lat, D=enc(D), nocorrupt=int(op == "restrict"))


def solve(R, sc, sid, rng, rep):
    n, lat = sc["n"], sc["lat"]
    D = 1.0 if rep == 0 else rng.uniform(0.5, 2)
    shape, sz, se, sn = ((2, 3), (3,), (2, 1), (3,)) if sc["shape"] == "bcast" else ((2, 3), (3,), (), (2, 1)) if sc["shape"] == "concentrations" else (SH[sc["shape"]],)*4
    num = int(np.prod(sz, dtype=int))
    z = {"matsubara": 1j*np.pi*(2*np.arange(num) + 1)/rng.uniform(2, 20), "broad": rng.uniform(-2, 2, num) + 0.3j, "axis": rng.uniform(-2, 2, num) + 1e-2j}[sc["z"]].reshape(sz)
    e = rng.uniform(-0.5, 0.5, se + (n,))
    if sc["e"] == "complex":
        e = e - 0.2j*rng.uniform(0, 1, se + (n,))
    c = concentration(rng, sn, n, sc["conc"])
    kw = {}
    if sc["start"] == "given":
        kw["self_cpa_z0"] = rng.uniform(-0.3, 0.3, shape) - 0.1j
    elif sc["start"] == "scalar":
        kw["self_cpa_z0"] = np.asarray(0.1 - 0.2j)
    if sc["tol"] != "default":
        kw["options"] = dict(fatol=float(sc["tol"]))
    h = hil(lat, D)
    b = lambda x: np.broadcast_to(x, shape).ravel()
    rows = [dict(z=p, e=u, c=v) for p, u, v in zip(b(z), np.broadcast_to(e, shape + (n,)).reshape(-1, n), np.broadcast_to(c, shape + (n,)).reshape(-1, n))]
    e = np.asarray(e)
    R.batch(sid, "solve_root", lambda: cpa.solve_root(z, e_onsite=e, concentration=c, hilbert_trafo=h, restricted=sc["restricted"], **kw), rows, shape, pick=lambda x: dict(s=x),
            lat=lat, D=enc(D), restricted=sc["restricted"], tol="1e-5" if sc["tol"] == "default" else sc["tol"], pure=sc["conc"] == "pure", hard=sc["z"] != "matsubara" or not sc["restricted"] or sc["tol"] != "default")


def fxdocc(R, sc, sid, rng, rep):
    n, lat = sc["n"], sc["lat"]
    D = 1.0 if rep == 0 else rng.uniform(0.7, 1.5)
    beta = float(rng.uniform(3, 12))
    if sc["freq"] == "pade":
        iw, wt = gt.pade_frequencies(8, beta=beta)
    else:
        iw, wt = 1j*np.pi*(2*np.arange(24) + 1)/beta, np.ones(24)
    N = len(iw)
    e = rng.uniform(-0.4, 0.4, n)
    batch = ()
    if sc["e"] == "bcast":
        batch = (2,)
        e = rng.uniform(-0.4, 0.4, (2, 1, n))
    elif sc["e"] == "selfenergy":
        e = e + rng.uniform(0.05, 0.3)/(iw[:, np.newaxis] + 0.2)
    c = concentration(rng, (), n)
    occ = rng.uniform(0.25, 0.75)*(batch[0] if batch else 1)
    kw = dict(weights=wt) if sc["freq"] == "pade" else {}
    if sc["start"] == "given":
        mu0 = float(rng.uniform(-0.2, 0.2))
        kw.update(mu0=mu0, self_cpa_iw0=np.zeros(batch + (N,)) - mu0 - 0.05j)
    if sc["tol"] != "default":
        kw["options"] = dict(fatol=float(sc["tol"]))
    if "fit" in sc:
        kw["n_fit"] = sc["fit"]
    ee = np.broadcast_to(e, batch + (N, n)).reshape((-1, N, n))
    rows = [dict(iw=iw, wt=wt, e=ee[i], c=c) for i in range(len(ee))]
    R.batch(sid, "fxdocc", lambda: cpa.solve_fxdocc_root(iw, e, c, hilbert_trafo=hil(lat, D), beta=beta, occ=occ, restricted=sc["restricted"], **kw), rows, batch,
            pick=lambda r: dict(s=r.self_cpa, mu=np.broadcast_to(r.mu, batch)), core=dict(s=(N,), mu=()), lat=lat, D=enc(D), beta=enc(beta), occ=enc(occ), fit=sc.get("fit", 0),
            restricted=sc["restricted"], tol="1e-5" if sc["tol"] == "default" else sc["tol"], hard=not sc["restricted"] or sc["tol"] != "default")
