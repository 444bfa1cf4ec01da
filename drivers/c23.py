import numpy as np

from registry import FN
from vf import attempt, enc


def layout(a, mem, nb, likes, j):
    """the same values in another memory layout (nb batch axes)"""
    if mem == "f":
        return np.asfortranarray(a)
    if mem == "rev":
        return a[::-1].copy()[::-1]
    if mem == "step":
        big = np.zeros((2*a.shape[0],) + a.shape[1:], a.dtype) + 77
        big[::2] = a
        return big[::2]
    if mem == "corerev":
        return a[..., ::-1].copy()[..., ::-1]
    if mem == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    if mem == "list" and j in likes:
        return a.tolist()
    return a


def tup(r):
    return tuple(r) if isinstance(r, (tuple, list)) else (r,)


def run(R):
    for sc in R.scenarios:
        fn = FN[sc["fn"]]
        if sc["mem"] == "list" and not fn.likes:
            continue
        for rep in range(R.n(1, 1 if fn.heavy else 8)):
            sid = f"{sc['fn']}/{sc['kind']}/{sc['mem']}/{rep}"
            if R.only is not None and sid != R.only:
                continue
            one(R, sc, fn, sid)


def one(R, sc, fn, sid):
    rng = R.rng(sid)
    shapes, outs = [tuple(s) for s in sc["shapes"]], [tuple(o) for o in sc["outs"]]
    vals = [gen(rng, sh + tuple(core)) for gen, sh, core in zip(fn.gens, shapes, sc["args"])]
    args = [layout(np.array(v), sc["mem"], len(sh), fn.likes, j) for j, (v, sh) in enumerate(zip(vals, shapes))]
    if sc["kind"] == "one":  # plain numbers
        args = [a[()] if np.ndim(a) == 0 else a for a in args]
        if rng.uniform() < 0.5:
            args = [a.item() if np.ndim(a) == 0 and j in fn.likes else a for j, a in enumerate(args)]
    ev = dict(op=sc["fn"], eexc="", sh=True, shapes=[list(s) for s in shapes], outs=sc["outs"], rtol=fn.rtol, got=[], rows=[])
    res, ev["exc"] = attempt(lambda: tup(fn.call(*args)))
    if not ev["exc"]:
        res = [np.asarray(r) for r in res]
        ev["got"] = [list(r.shape) for r in res]
        b = np.broadcast_shapes(*shapes)
        if [tuple(g) for g in ev["got"]] == [b + o for o in outs]:
            cache = {}
            for idx in np.ndindex(*b):
                at = []
                for sh in shapes:
                    tail = idx[len(idx) - len(sh):]
                    at.append(tuple(0 if n == 1 else i for i, n in zip(tail, sh)))
                key = tuple(at)
                if key not in cache:
                    elem = [np.array(v[i]) if np.ndim(v[i]) else v[i] for v, i in zip(vals, at)]
                    cache[key] = attempt(lambda: tup(fn.call(*elem)))
                e, eexc = cache[key]
                if eexc:
                    ev["eexc"] = eexc
                    break
                e = [np.asarray(x) for x in e]
                ev["rows"].append(dict(idx=[list(i) for i in at], o=[enc(r[idx].ravel()) for r in res], e=[enc(x.ravel()) for x in e]))
    R.add(sid, ev)
