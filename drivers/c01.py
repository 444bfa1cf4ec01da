import numpy as np
import gftool as gt
from gftool.basis import pole


def draw_poles(rng, kind, shape):
    if kind == "regular":
        return rng.uniform(-2, 2, shape)
    if kind == "complex":
        return rng.uniform(-2, 2, shape) - 1j*rng.uniform(0.05, 1.5, shape)
    if kind == "complex+":
        return rng.uniform(0.1, 2, shape) - 1j*rng.uniform(-1.5, 1.5, shape)
    if kind == "zero":
        p = rng.uniform(-2, 2, shape)
        p[..., 0] = 0.0
        return p
    if kind == "wide":
        return rng.uniform(-1, 1, shape)*10.0**rng.uniform(-3, 3, shape)
    if kind == "wide+":
        return rng.uniform(0.5, 1, shape)*10.0**rng.uniform(-3, 3, shape)
    if kind == "cluster":
        return 0.7 + 1e-6*rng.standard_normal(shape)
    if kind == "int":
        return rng.integers(-3, 4, shape)
    if kind == "posint":
        return rng.integers(1, 5, shape)
    if kind == "negative":
        return -rng.uniform(0.1, 3, shape)
    if kind == "positive":
        return rng.uniform(0.1, 3, shape)
    if kind == "large":
        return rng.uniform(-1, 1, shape)*1e4
    raise AssertionError(kind)


def layout(rng, shape):
    """Return (shape of argument, batch shape of poles, number of poles, batch shape of the result)."""
    n = int(rng.integers(2, 6))
    k, b = int(rng.integers(2, 5)), int(rng.integers(2, 4))
    return {
        "scalar": ((), (), n, ()),
        "vec": ((k,), (), n, (k,)),
        "outer": ((k, 1), (b,), n, (k, b)),
        "batch": ((b,), (b,), n, (b,)),
        "many": ((k,), (), int(rng.choice([17, 33, 40, 130])), (k,)),
        "onepole": ((k,), None, 1, (k,)),
        "scalarweight": ((k,), (), n, (k,)),
        "empty": ((0,), (), n, (0,)),
        "grid": ((2, 1, k), (b, 1), n, (2, b, k)),
    }[shape]


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 4)):
            one(R, sc, rep)


def one(R, sc, rep):
    op, shp = sc["op"], sc["shape"]
    wkind = sc.get("w", "real")
    sid = f"{op}/{shp}/{sc['poles']}/{sc['arg']}/{rep}" + ("" if wkind == "real" else "/" + wkind)
    rng = R.rng(sid)
    xs, ps, n, es = layout(rng, shp)
    poles = draw_poles(rng, sc["poles"], (ps or ()) + (n,))
    weights = rng.uniform(-0.5, 1.5, poles.shape)
    if sc["poles"] == "int" and rep % 2:
        weights = rng.integers(-2, 3, poles.shape)
    if wkind == "complex":
        weights = weights + 1j*rng.uniform(-1, 1, poles.shape)
    if shp == "onepole":
        poles, weights = poles[..., 0][()], weights[..., 0][()]
    elif shp == "scalarweight":
        weights = weights[..., 0][()]
    beta = {"inner": rng.uniform(0.5, 20), "edge": rng.uniform(0.5, 100), "extreme": 10**rng.uniform(2, 4)}.get(sc["arg"], 1.0)
    bfull = np.atleast_1d(np.broadcast_to(weights, np.shape(poles)))
    pfull = np.atleast_1d(poles)

    def rows(x, beta=None):
        xb = np.broadcast_to(x, es).reshape(-1)
        pb = np.broadcast_to(pfull, es + pfull.shape[-1:]).reshape(-1, pfull.shape[-1])
        wb = np.broadcast_to(bfull, es + bfull.shape[-1:]).reshape(-1, bfull.shape[-1])
        res = [dict(x=a, p=c, w=d) for a, c, d in zip(xb, pb, wb)]
        if beta is not None:
            for r, bb in zip(res, np.broadcast_to(beta, es).reshape(-1)):
                r["beta"] = bb
        return res

    if op in ("gf_z", "gf_d1_z", "PoleFct.eval_z"):
        x = rng.uniform(-2.5, 2.5, xs)
        if sc["arg"] == "far":
            x = 10**rng.uniform(1.5, 7, xs)*np.exp(1j*rng.uniform(0, 2*np.pi, xs))*np.max(1 + abs(pfull))
        elif sc["arg"] == "real":
            x = np.asarray(np.max(abs(pfull.real)) + 0.3 + rng.uniform(0, 2, xs)) * rng.choice([-1, 1])
        else:
            x = x + (1j if sc["arg"] == "upper" else -1j)*(10**rng.uniform(-3, 1, xs) + (1.6 if sc["poles"] == "complex" else 0))
        x = np.asarray(x)[()]
        f = {"gf_z": lambda: (gt.pole_gf_z if rep % 2 == 0 else pole.gf_z)(x, poles, weights),
             "gf_d1_z": lambda: gt.pole_gf_d1_z(x, poles=poles, weights=weights),
             "PoleFct.eval_z": lambda: pole.PoleFct(poles, weights).eval_z(x)}[op]
        R.batch(sid, op, f, rows(x), es)
    elif op in ("gf_tau", "PoleGf.eval_tau", "gf_tau_b"):
        if shp in ("batch", "outer") and rng.integers(2):
            beta = np.broadcast_to(beta, ps) * rng.uniform(0.5, 1, ps)
        bt = np.broadcast_to(beta, es if not isinstance(beta, float) else ())
        frac = rng.uniform(0, 1, xs)
        if sc["arg"] == "edge":
            frac = rng.integers(0, 2, xs)*1.0
        x = frac*np.min(beta) if not isinstance(beta, float) else frac*beta
        if sc["arg"] == "edge" and not isinstance(beta, float) and shp == "batch":
            x = frac*beta
        x = np.asarray(x)[()]
        f = {"gf_tau": lambda: gt.pole_gf_tau(x, poles, weights, beta),
             "PoleGf.eval_tau": lambda: pole.PoleGf(poles, weights).eval_tau(x, beta),
             "gf_tau_b": lambda: gt.pole_gf_tau_b(x, poles, weights, beta)}[op]
        R.batch(sid, op, f, rows(x, bt), es)
    elif op in ("gf_ret_t", "PoleGf.eval_ret_t"):
        x = rng.uniform(0, 30, xs)
        if sc["arg"] == "edge":
            x = x*rng.integers(0, 2, xs)
        elif sc["arg"] == "long":
            x = 10**rng.uniform(1, 4.5, xs)
            if np.iscomplexobj(pfull):
                x = x*1e-2
        elif sc["arg"] == "negative":
            x = x*rng.choice([-1, 1], xs)
        x = np.asarray(x)[()]
        f = {"gf_ret_t": lambda: gt.pole_gf_ret_t(x, poles, weights),
             "PoleGf.eval_ret_t": lambda: pole.PoleGf(poles, weights).eval_ret_t(x)}[op]
        R.batch(sid, op, f, rows(x), es)
    elif op in ("moments", "PoleFct.moments"):
        top = {"low": 4, "high": 12, "huge": 30}[sc["arg"]]
        if shp == "scalar":
            order, os_ = int(rng.integers(1, top)), ()
        else:
            order = np.sort(rng.choice(np.arange(1, top + 1), size=3, replace=False))
            if rep % 2 == 0:
                order = order.tolist()
            os_ = (3,)
        bs = pfull.shape[:-1]
        # result shape of the sum over poles: batch + order
        es2 = bs + (os_ if os_ else (1,)) if bs else (os_ if os_ else (1,))
        ob = np.broadcast_to(order, es2).reshape(-1)
        pb = np.broadcast_to(pfull[..., None, :], es2 + pfull.shape[-1:]).reshape(-1, pfull.shape[-1])
        wb = np.broadcast_to(bfull[..., None, :], es2 + bfull.shape[-1:]).reshape(-1, bfull.shape[-1])
        rws = [dict(x=a, p=c, w=d) for a, c, d in zip(ob, pb, wb)]
        f = {"moments": lambda: gt.pole_gf_moments(poles, weights, order=order),
             "PoleFct.moments": lambda: pole.PoleFct(poles, weights).moments(order)}[op]
        R.batch(sid, op, f, rws, es2, pick=lambda v: {"o": np.atleast_1d(v)})
    elif op == "PoleGf.occ":
        bs = np.broadcast(poles, weights).shape[:-1]
        pb = pfull.reshape(-1, pfull.shape[-1])
        wb = np.broadcast_to(bfull, pfull.shape).reshape(-1, pfull.shape[-1])
        if sc["arg"] == "betas":
            # beta has the shape of the poles, such that its last axis belongs to the poles
            beta = (10**rng.uniform(-1, 3, bs))[..., np.newaxis]
            bb = np.broadcast_to(beta, bs + (1,)).reshape(-1)
            R.batch(sid, op, lambda: pole.PoleGf(poles, weights).occ(beta), [dict(p=c, w=d, beta=e) for c, d, e in zip(pb, wb, bb)], bs)
            return
        R.batch(sid, op, lambda: pole.PoleGf(poles, weights).occ(beta), [dict(p=c, w=d, beta=beta) for c, d in zip(pb, wb)], bs)
