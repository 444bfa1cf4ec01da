import numpy as np
import gftool.siam as siam
from vf import enc


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 4)):
            one(R, sc, rep)


def one(R, sc, rep):
    sid = "/".join("-".join(v) if isinstance(v, list) else str(v) for v in (sc[k] for k in sorted(sc))) + f"/{rep}"
    if R.only is not None and sid != R.only:
        return
    rng = R.rng(sid)
    nb, dt = sc["nb"], sc["dtype"]
    # shapes of e_onsite, bath batch, hopping batch, and number of extra leading time axes
    so, sb, sh = {"none": ((), (), ()), "3": ((3,), (3,), (3,)), "2x2": ((2, 2), (2, 2), (2, 2)), "bcast": ((2, 1), (3,), (1,)), "tbatch": ((2,), (2,), ())}[sc["shape"]]
    shape = np.broadcast_shapes(so, sb, sh)
    e0, eb, v = rng.normal(size=so), rng.normal(size=sb + (nb,)), rng.normal(size=sh + (nb,))
    if dt in ("complex", "wide"):
        v = v + 1j*rng.normal(size=v.shape)
    if dt == "int":
        e0, eb, v = rng.integers(-3, 4, so), rng.integers(-3, 4, sb + (nb,)), rng.integers(-3, 4, sh + (nb,))
    if dt == "intonsite+hop":
        e0 = rng.integers(-3, 4, so)
    if dt in ("inthop", "intonsite+hop"):
        v = rng.integers(-3, 4, sh + (nb,))
    if dt == "intbath":
        eb = rng.integers(-3, 4, sb + (nb,))
    if dt == "degenerate":
        eb[..., :] = eb[..., :1]
    if dt == "zerohop":
        v[..., 0] = 0
    if dt == "wide":
        eb = eb*8
    unit = {"tiny": 10.0**rng.uniform(-6, -3), "huge": 10.0**rng.uniform(3, 6)}.get(sc.get("unit"), 1)  # of energy
    if unit != 1:
        e0, eb, v = e0*unit, eb*unit, v*unit
    e0 = np.asarray(e0)
    vsq = (v*np.conj(v)).real
    bc = np.broadcast_to
    size = int(np.prod(shape, dtype=int))
    m0, mb, mv = bc(e0, shape).reshape(size), bc(eb, shape + (nb,)).reshape(size, nb), bc(v, shape + (nb,)).reshape(size, nb)
    models = [dict(e0=enc(a), eb=enc(b), v=enc(c)) for a, b, c in zip(m0, mb, mv)]
    beta = float(10.0**rng.uniform(-1, 1)) if dt != "wide" else 1.0
    if rep == 1:
        beta = 3
    nt = 3
    tt = {"mixed": np.array([rng.uniform(-3, 0), rng.uniform(0, 1), rng.uniform(0, 6)]), "zero": np.array([0., -0.0, 1e-9]), "long": rng.uniform(5, 20, 3)}[sc["time"]]
    tt, beta = tt/unit, beta/unit
    # a leading time axis, as documented all (...) dimensions broadcast
    tt = tt.reshape((nt,) + (1,)*len(shape))
    z = (rng.normal(size=nt)*2 + 1j*rng.uniform(0.1, 2, nt)*rng.choice([-1, 1], nt)).reshape(tt.shape)*unit
    esh = (nt,) + shape
    trow = [dict(i=int(i), t=tt.ravel()[k]) for k in range(nt) for i in range(size)]
    zrow = [dict(i=int(i), t=0, z=z.ravel()[k]) for k in range(nt) for i in range(size)]
    evs = []
    for op in sc["seq"]:
        kw = dict(beta=enc(beta))
        if op == "ham":
            e = R.ev(op, lambda: siam.hamiltonian_matrix(e0, e_bath=eb, hopping=v), [dict(i=i, t=0) for i in range(size)], shape, core=(nb + 1, nb + 1), **kw)
        elif op == "hyb":
            e = R.ev(op, lambda: siam.hybrid_z(z, e_bath=eb, hopping_sqr=vsq), zrow, esh, **kw)
            if so != shape and not e["exc"]:
                e["sh"] = True
        elif op == "gf0":
            e = R.ev(op, lambda: siam.gf0_loc_z(z, e0, e_bath=eb, hopping_sqr=vsq), zrow, esh, **kw)
        elif op == "ret":
            e = R.ev(op, lambda: siam.gf0_loc_ret_t(tt, e0, e_bath=eb, hopping=v), trow, esh, **kw)
        else:
            f = siam.gf0_loc_gr_t if op == "gr" else siam.gf0_loc_le_t
            e = R.ev(op, lambda: f(tt, e0, e_bath=eb, hopping=v, beta=beta), trow, esh, **kw)
        for r in e["rows"]:
            r["i"] = int(r["i"])
        evs.append(e)
    R.add(sid, *evs, models=models)
