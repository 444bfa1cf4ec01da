import numpy as np
import gftool as gt
from gftool import basis
from gftool.basis import ZeroPole
from vf import attempt, enc

# shapes of the three arguments and of the result
SH = {"none": ((), (), (), ()), "3": ((3,), (), (), (3,)), "2x3": ((2, 3), (2, 3), (2, 3), (2, 3)), "bcast": ((3,), (2, 1), (2, 3), (2, 3))}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 8)):
            sid = "/".join("-".join(v) if isinstance(v, list) else str(v) for v in (sc[k] for k in sorted(sc))) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            {"surface": surface, "dimer": dimer, "dimer-reject": dimer_reject, "hubbard1": hubbard1, "rat": rat}[sc["op"]](R, sc, sid, R.rng(sid))


def plane(rng, half, shape):
    x = rng.uniform(-3, 3, shape)
    if half == "upper":
        return x + 1j*rng.uniform(0.05, 2, shape)
    if half == "lower":
        return x - 1j*rng.uniform(0.05, 2, shape)
    if half == "far":
        return (x + 1j*rng.choice([-1, 1], shape)*rng.uniform(0.5, 2, shape))*1e6
    if half == "axis":
        return 1j*rng.uniform(0.05, 3, shape)*rng.choice([-1, 1], shape)
    return x + 1j*rng.choice([-1, 1], shape)*1e-9


def num(rng, shape, lo, hi, dtype, sign=1):
    if dtype == "int":
        return sign*rng.integers(max(1, int(lo)), max(2, int(hi)) + 1, shape)
    return sign*rng.uniform(lo, hi, shape)


def rows(names, args, shape):
    return [dict(zip(names, v)) for v in zip(*[np.broadcast_to(a, shape).reshape(-1) for a in args])]


def scal(a):
    return a[()] if isinstance(a, np.ndarray) and a.ndim == 0 else a


def surface(R, sc, sid, rng):
    sz, se, st, so = SH[sc["shape"]]
    z = scal(np.asarray(plane(rng, sc["half"], sz)))
    e = scal(np.asarray(num(rng, se, 1, 2, sc["dtype"])))
    t = scal(np.asarray(num(rng, st, 0.2, 3, sc["dtype"], {"pos": 1, "neg": -1, "zero": 0}[sc["hop"]])))
    R.batch(sid, "surface", lambda: gt.surface_gf_zeps(z, e, t), rows("zet", (z, e, t), so), so)


def dimer(R, sc, sid, rng):
    sz, st, su, so = SH[sc["shape"]]
    z = scal(np.asarray(plane(rng, sc["half"], sz)))
    if sc["hop"] == "small":
        t = scal(np.asarray(rng.uniform(0.001, 0.05, st)))
    else:
        t = scal(np.asarray(num(rng, st, 0.2, 3, sc["dtype"], 1 if sc["hop"] == "pos" else -1)))
    u = scal(np.asarray(num(rng, su, 0.5, 5, sc["dtype"], {"pos": 1, "neg": -1, "zero": 0, "large": 20}[sc["u"]])))
    kw = {} if sc["kind"] == "+" and rng.uniform() < 0.5 else dict(kind=sc["kind"])
    R.batch(sid, "dimer", lambda: gt.hubbard_dimer_gf_z(z, t, u, **kw), rows("ztu", (z, t, u), so), so, s=1 if sc["kind"] == "+" else -1)


def dimer_reject(R, sc, sid, rng):
    k = None if sc["kind"] == "None" else sc["kind"]
    R.error(sid, "dimer-reject", lambda: gt.hubbard_dimer_gf_z(1j, 1.0, 2.0, kind=k))


def hubbard1(R, sc, sid, rng):
    sz, su, sn, so = SH[sc["shape"]]
    z = scal(np.asarray(plane(rng, sc["half"], sz)))
    u = scal(np.asarray(num(rng, su, 0.5, 5, sc["dtype"], {"pos": 1, "neg": -1, "zero": 0}[sc["u"]])))
    n = scal({"0": np.zeros(sn, dtype=int), "1": np.ones(sn, dtype=int), "mid": np.asarray(rng.uniform(0.05, 0.95, sn))}[sc["occ"]])
    R.batch(sid, "hubbard1", lambda: gt.hubbard_I_self_z(z, u, n), rows("zun", (z, u, n), so), so)


BSH = {"none": (), "2": (2,), "2x3": (2, 3)}


def rat(R, sc, sid, rng):
    bsh = BSH[sc["batch"]]
    nz, npl = sc["nz"], sc["np"]

    def val(n):
        x = rng.uniform(-2, 2, bsh + (n,))
        return x + 1j*rng.uniform(-1, 1, x.shape) if sc["dtype"] == "complex" else x
    zeros, poles = val(nz), val(npl)
    amp = {"default": np.ones(bsh), "real": rng.uniform(0.5, 2, bsh)*rng.choice([-1, 1], bsh), "complex": rng.normal(size=bsh) + 1j*rng.normal(size=bsh)}[sc["amp"]]
    amp = scal(np.asarray(amp))
    zsh = {"scalar": (), "5": (5,), "2x2": (2, 2), "2x1": (2, 1)}[sc["z"]]
    if bsh:   # z is broadcast against the batch
        zsh = {"scalar": (), "5": (5,) + (1,)*len(bsh), "2x1": (2, 1) if len(bsh) == 2 else (2, 1)}[sc["z"]]
    osh = np.broadcast_shapes(zsh, bsh)
    x = scal(np.asarray(rng.uniform(-3, 3, zsh) + 1j*rng.choice([-1, 1], zsh)*rng.uniform(1.2, 2, zsh)))
    size = int(np.prod(bsh, dtype=int))
    obj, exc = attempt(lambda: ZeroPole(zeros, poles) if sc["amp"] == "default" else ZeroPole(zeros, poles, amp))
    flat = lambda a, c: np.broadcast_to(a, bsh + c).reshape((size,) + c)
    evs = [dict(op="new", exc=exc, sh=True, rows=[dict(a=enc(a), zeros=enc(z), poles=enc(p)) for a, z, p in zip(flat(amp, ()), flat(zeros, (nz,)), flat(poles, (npl,)))])]
    xb = np.broadcast_to(x, osh)
    x0, xb0, osh0 = x, xb, osh
    lead = osh[:len(osh) - len(bsh)]

    def regroup(o):   # (lead..., batch...) -> one row of values per batch element
        if not bsh:
            return o.reshape(1, -1)
        return np.moveaxis(o.reshape((int(np.prod(lead, dtype=int)),) + osh[len(lead):]).reshape((int(np.prod(lead, dtype=int)), -1)), 0, -1)
    # if z has extra extent along a batch axis the batch elements repeat; only equal batch extents are used
    if osh[len(lead):] != bsh:
        return
    for op in sc["seq"]:
        if op == "invert":
            obj = ZeroPole(zeros=obj.poles, poles=obj.zeros, amplitude=1/obj.amplitude)
            evs.append(dict(op="invert", exc="", sh=True, rows=[]))
            continue
        if op == "scale":
            obj = obj._replace(amplitude=obj.amplitude*2)
            evs.append(dict(op="scale", exc="", sh=True, rows=[]))
            continue
        if op == "wrap":
            obj = ZeroPole(*obj)
            evs.append(dict(op="wrap", exc="", sh=True, rows=[]))
            continue
        x, xb, osh = x0, xb0, osh0
        if sc["batch"] == "none" and sc["z"] == "5":  # include the roots themselves, where the function vanishes
            x = xb = np.concatenate([x0, {"eval": obj.zeros, "reciprocal": obj.poles}.get(op, [])])
            osh = x.shape
        f = {"eval": lambda: obj.eval(x), "reciprocal": lambda: obj.reciprocal(x), "ratpol": lambda: obj.to_ratpol().eval(x)}[op]
        o, exc = attempt(f)
        if op == "ratpol" and not exc and len(evs) % 2 and not (np.size(obj.zeros) and np.ndim(obj.zeros) > 1):   # polynomials may be stored on any domain
            conv = lambda q: q.convert(domain=[-2., 3.], window=[-1., 1.5])
            o, exc = attempt(lambda: (lambda r: basis.RatPol(conv(r.numer), conv(r.denom)).eval(x))(obj.to_ratpol()))
        e = dict(op=op, exc=exc, sh=True, rows=[])
        if not exc:
            if np.shape(o) != osh:
                e["sh"] = False
            else:
                e["rows"] = [dict(x=enc(a), o=enc(b)) for a, b in zip(regroup(xb), regroup(np.asarray(o)))]
                e["outs"] = ["o"]
        evs.append(e)
    R.add(sid, *evs)
