import numpy as np
import gftool as gt
from gftool import pade
from vf import attempt, enc

SH = {"none": (), "3": (3,), "2x2": (2, 2)}
NUM, REL = 2, 50


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 4)):
            sid = "/".join("-".join(map(str, v)) if isinstance(v, list) else str(v) for v in (sc[k] for k in sorted(sc))) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            if sc["op"] == "kind" and rep:
                continue
            {"coefficients": coeff, "masked": coeff, "kind": kind, "iterate": iterate, "filter": filt, "averaged": averaged, "reject": reject}[sc["op"]](R, sc, sid, R.rng(sid), rep)


def function(rng, z, shape):
    """Generic Green's function: more poles than points can resolve, plus noise."""
    p = rng.uniform(-2, 2, shape + (24,))
    w = rng.uniform(0.2, 1, shape + (24,))
    f = (w[..., np.newaxis, :]/(z[:, np.newaxis] - p[..., np.newaxis, :])).sum(axis=-1)/12
    return f*(1 + 0.05*rng.normal(size=f.shape) + 0.05j*rng.normal(size=f.shape))


def coeff(R, sc, sid, rng, rep):
    n, shape = sc["n"], SH[sc["shape"]]
    if sc["mesh"] == "matsubara":
        z = 1j*np.pi*(2*np.arange(n) + 1)/rng.uniform(2, 10)
    elif sc["mesh"] == "upper":
        z = rng.uniform(-2, 2, n) + 1j*rng.uniform(0.5, 2, n)
    else:
        z = np.sort(rng.uniform(-3, 3, n)) + np.arange(n)*0.2
    f = function(rng, z + (1j if sc["mesh"] == "real" else 0), shape)
    if sc["dtype"] == "real":
        f = f.real + 2.0
    elif sc["dtype"] == "complex256":
        f = f.astype(np.clongdouble)
        z = z.astype(np.clongdouble)
        f = f*(1 + np.longdouble(1e-18)*3)
    if sc["op"] == "masked":
        f = f*3 + rng.uniform(0.5, 1)     # not extreme
        ref = pade.coefficients(z, f)
        # the documented exception: extreme values are masked
        if np.max(abs(ref)) > 30 or np.min(abs(ref)) < 0.03:
            f = 1 + 0.5*rng.normal(size=f.shape) + 0.5j*rng.normal(size=f.shape)
            if extreme(z, f):
                return
        elif extreme(z, f):
            return
    g = pade.coefficients if sc["op"] == "coefficients" else pade.masked_coefficients
    R.batch(sid, sc["op"], lambda: g(z, f), [dict(f=v) for v in f.reshape(-1, n)], shape, core=(n,), z=enc(z), eps="1e-19" if sc["dtype"] == "complex256" and sc["op"] == "coefficients" else "1e-16")


def extreme(z, f):
    """Whether one of the reciprocal differences differs a lot in magnitude from the reference (or is close to it)."""
    for g in f.reshape(-1, z.size):
        g = g.astype(complex)
        for i in range(z.size - 1):
            q = abs(g[i+1:])/abs(g[i])
            if q.max() > 5e3 or q.min() < 2e-4 or np.min(abs(g[i+1:] - g[i])) < 2e-4:
                return True
            g[i+1:] = (g[i]/g[i+1:] - 1)/(z[i+1:] - z[i])
    return abs(f[..., 0]).min() < 2e-4


KIND = {"gf": pade.KindGf, "self": pade.KindSelf}


def kind(R, sc, sid, rng, rep):
    k, exc = attempt(lambda: KIND[sc["kind"]](sc["nmin"], sc["nmax"]))
    ev = dict(op="kind", exc=exc, sh=True, rows=[], kind=sc["kind"], nmin=sc["nmin"], nmax=sc["nmax"])
    if not exc:
        val, exc = attempt(lambda: (list(k.islice(iter(range(39)))), list(range(39))[k.slice], [k[i] for i in range(len(k))], len(k), [k[i] for i in range(-len(k), 0)], list(k[1:])))
        ev["exc"] = exc
        if not exc:
            ev.update(islice=val[0], slice=val[1], items=val[2], len=val[3], back=val[4], rest=val[5])
    R.add(sid, ev)


def mesh(rng, n):
    return 1j*np.pi*(2*np.arange(n) + 1)/rng.uniform(2, 6)


def iterate(R, sc, sid, rng, rep):
    n, shape = sc["n"], SH[sc["shape"]]
    z = mesh(rng, n)
    a = pade.coefficients(z, function(rng, z, shape))
    osh = {"scalar": (), "5": (5,), "2x3": (2, 3), "nodes": (n,)}[sc["out"]]
    x = z.copy() if sc["out"] == "nodes" else np.asarray(rng.uniform(-2, 2, osh) + 1j*rng.uniform(0.3, 1, osh))
    its = {}
    evs, keep = [], []
    for which in sc["seq"]*(2 if rep == 0 else 1 + rep):
        if which not in its:
            its[which] = pade.calc_iterator(x, z, a)
        box = {}

        def nxt():
            box["v"] = next(its[which])
            return box["v"].copy()
        nz = max(int(np.prod(osh, dtype=int)), 1)
        e = R.ev("next", nxt, [dict(a=v) for v in a.reshape(-1, n)], shape, core=osh, it=which, z=enc(z), x=enc(x.reshape(-1)))
        for r in e["rows"]:
            r["o"] = np.asarray(r["o"]).reshape(-1).tolist()
        evs.append(e)
        keep.append(box.get("v"))
    for e, v in zip(evs, keep):
        for i, r in enumerate(e["rows"]):
            r["later"] = enc(v.reshape((-1, nz))[i])
    R.add(sid, *evs)


def make_filter(name):
    return {"neg": lambda: pade.FilterNegImag(), "neg-loose": lambda: pade.FilterNegImag(0.25), "neg-strict": lambda: pade.FilterNegImag(threshold=-0.1), "neg-inf": lambda: pade.FilterNegImag(np.inf),
            "num": lambda: pade.FilterNegImagNum(abs_num=NUM), "num-rel": lambda: pade.FilterNegImagNum(rel_num=REL/100),
            "var": lambda: pade.FilterHighVariance(abs_num=NUM), "var-rel": lambda: pade.FilterHighVariance(rel_num=REL/100)}[name]()


def flat_only(fs):
    return len(fs) == 1 and fs[0].startswith(("num", "var"))  # documented: single filters of this kind only for flat input


def filt(R, sc, sid, rng, rep):
    fs = sc["filter"].split("+")
    shape = SH[sc["shape"]]
    if flat_only(fs) and shape:
        return
    n, nz = sc["np"], 4
    p = rng.normal(size=(n,) + shape + (nz,)) + 1j*rng.normal(size=(n,) + shape + (nz,))*0.3
    if sc["data"] == "cluster":
        p = 0.02*p + rng.normal(size=shape + (nz,)) - 0.3j
        for i in rng.choice(n, size=min(2, n - 1), replace=False):
            p[i] += 3*rng.normal() + 2j*rng.uniform(0.5, 1)
    elif sc["data"] == "negative":
        p.imag = -abs(p.imag) - 0.01
    elif sc["data"] == "positive":
        p.imag = abs(p.imag) + 0.3
    elif sc["data"] == "faint":
        p.imag = 1e-4*p.imag
        p.imag[::2] = -abs(p.imag[::2])
    elif sc["data"] == "touching":  # the largest imaginary part of some is exactly zero
        p.imag = -abs(p.imag) - 0.01
        p.imag[::2, ..., 0] = 0
        p.imag[1::3, ..., 1] = 0.2
    filters = [make_filter(f) for f in fs]
    size = int(np.prod(shape, dtype=int))
    pr = np.moveaxis(p.reshape((n, size, nz)), 0, 1)
    rows = [dict(p=v) for v in pr]
    f = (lambda: filters[0](iter(list(p)))) if len(filters) == 1 and rep % 2 == 0 else (lambda: pade.apply_filter(*filters, validity_iter=iter(list(p))))
    ev = R.ev("filter", f, rows, shape, core=(n,), pick=lambda m: dict(o=np.moveaxis(np.asarray(m), 0, -1)), fs=fs, num=NUM, rel=REL, nocorrupt=1)
    ev["rows0"] = [dict(p=enc(v)) for v in pr]
    R.add(sid, ev)


def averaged(R, sc, sid, rng, rep):
    shape = SH[sc["shape"]]
    name = sc["filter"]
    fs = [] if name in ("none", "mask", "mask-flat") else name.split("+")
    if flat_only(fs) and shape:
        return
    nmin, nmax = map(int, sc["range"].split("-"))
    nz = 12 if nmax < 30 else 40
    z = mesh(rng, nz)
    f = function(rng, z, shape)
    x = rng.uniform(-2, 2, 3) + 0.6j
    if rep % 2:
        x = np.asarray(rng.uniform(-2, 2, (2, 2)) + 0.6j)
    y = x.reshape(-1) if sc["valid"] == "none" else rng.uniform(-2, 2, 5 if sc["valid"] == "given" else 40) + 0.4j
    a = pade.coefficients(z, f)
    size = int(np.prod(shape, dtype=int))
    rows = [dict(a=v) for v in a.reshape(-1, nz)]
    api = sc["api"]
    box = {}

    def kindof():
        return KIND[sc["kind"]](nmin, nmax)
    filters = [make_filter(k) for k in fs]
    arg = None if not filters else (filters[0] if len(filters) == 1 else filters)
    mask = None
    if name.startswith("mask"):
        try:
            m = len([i for i in range(nz - 1)][kindof().slice])
        except ValueError:
            m = 0
        msh = (m,) if name == "mask-flat" else (m,) + shape
        mask = rng.uniform(size=msh) < 0.6
        if rep % 2 == 0 and m:
            mask[0] = True
        for i, r in enumerate(rows):
            r["mask"] = np.broadcast_to(np.moveaxis(mask, 0, -1) if mask.ndim > 1 else mask, shape + (m,)).reshape(size, m)[i] if m else np.zeros(0)

    def call():
        k = kindof()
        if api == "averaged" or api == "avg_no_neg_imag":
            kw = dict(fct_z=f) if sc["source"] == "fct" else dict(coeff=a)
            if sc["valid"] != "none":
                kw["valid_z"] = y
            if api == "averaged":
                return pade.averaged(x, z, filter_valid=arg, kind=k, **kw)
            thr = {"neg": {}, "neg-loose": dict(threshold=0.25), "neg-inf": dict(threshold=np.inf)}[name]
            return pade.avg_no_neg_imag(x, z, kind=k, **thr, **kw)
        it = k.islice(pade.calc_iterator(y, z, a))
        if mask is not None:
            valid = mask
        elif filters:
            valid = pade.apply_filter(*filters, validity_iter=it)
        else:
            valid = np.ones((len(list(it)),) + shape, dtype=bool)
        if api == "Averager":
            return pade.Averager(z, a, valid_pades=valid, kind=k)(x)
        if api == "Mod-real":
            return pade.Mod_Averager(z, a, lambda zz, p: -p.imag, valid_pades=valid, kind=k)(x)
        return pade.Mod_Averager(z, a, lambda zz, p, fac, add=0: p*fac + add*zz, valid_pades=valid, kind=k, vectorized=api == "Mod-vec")(x, 2, add=0.25)
    ev = R.ev("averaged", call, rows, shape, core=x.shape, pick=lambda r: dict(o=r.x, err=r.err), z=enc(z), x=enc(x.reshape(-1)), y=enc(y), kind=sc["kind"], nmin=nmin, nmax=nmax,
              filter=name, fs=fs, num=NUM, rel=REL, api=api, nocorrupt=int(name not in ("none", "mask", "mask-flat")))
    for r in ev["rows"]:
        for k in ("o", "err"):
            r[k] = np.asarray(r[k]).reshape(-1).tolist()
    ev["rows0"] = [{k: enc(v) for k, v in r.items()} for r in rows]
    R.add(sid, ev)


def reject(R, sc, sid, rng, rep):
    z = mesh(rng, 8)
    f = function(rng, z, (2,))
    a = pade.coefficients(z, f)
    k = pade.KindGf(1, 8)
    ok = np.ones(len(k), dtype=bool)
    x = np.array([0.1 + 1j, 0.3 + 1j])
    nan = a.copy()
    nan[0, 2] = np.nan
    none_b = np.ones((len(k), 2), dtype=bool)
    none_b[:, 1] = False
    mod = lambda *args, **kw: pade.Mod_Averager(args[0], args[1], lambda zz, p: p, **kw)
    w = sc["what"]
    g = {"shape": lambda: pade.coefficients(z[:-1], f), "valid-type": lambda: pade.Averager(z, a, valid_pades=ok.astype(int), kind=k), "valid-none": lambda: pade.Averager(z, a, valid_pades=~ok, kind=k),
         "valid-none-batch": lambda: pade.Averager(z, a, valid_pades=none_b, kind=k), "nan": lambda: pade.Averager(z, nan, valid_pades=ok, kind=k)(x),
         "mod-valid-type": lambda: mod(z, a, valid_pades=ok*1.0, kind=k), "mod-valid-none": lambda: mod(z, a, valid_pades=~ok, kind=k), "mod-nan": lambda: mod(z, nan, valid_pades=ok, kind=k)(x)}[w]
    R.error(sid, "reject", g, want={"shape": "ValueError", "valid-type": "TypeError", "mod-valid-type": "TypeError"}.get(w, "RuntimeError"))
