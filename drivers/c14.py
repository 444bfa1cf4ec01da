import numpy as np
import gftool as gt
import gftool.matrix as gm
from vf import attempt, enc

SH = {"none": (), "2": (2,), "3": (3,), "2x2": (2, 2), "2x3": (2, 3)}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 5)):
            sid = "/".join("-".join(v) if isinstance(v, list) else str(v) for v in (sc[k] for k in sorted(sc))) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            globals()[{"session": "session", "reject": "reject", "gf_2x2_z": "two", "construct_gf": "construct"}[sc["op"]]](R, sc, sid, R.rng(sid), rep)


def matrix(rng, shape, n, dtype, sym, struct="random"):
    if struct != "random":
        m = {"diagonal": np.diag(np.round(rng.normal(size=n), 2)), "identity": np.eye(n)*1.5, "zero": np.zeros((n, n))}[struct]
        return m
    if dtype == "int":
        while True:  # distinct eigenvalues, so that it can be diagonalized
            m = rng.integers(-4, 5, shape + (n, n))
            ev = np.linalg.eigvals(m)
            if np.min(abs(ev[..., :, None] - ev[..., None, :]) + 9*np.eye(n), initial=9) > 0.5:
                break
    else:
        m = rng.normal(size=shape + (n, n))
        if dtype == "complex":
            m = m + 1j*rng.normal(size=shape + (n, n))
    if sym == "sym":
        m = m + np.swapaxes(m, -1, -2)
    if sym == "her":
        m = m + np.swapaxes(m, -1, -2).conj()
    return m


DEC = {"mat": gm.decompose_mat, "sym": gm.decompose_sym, "her": gm.decompose_her, "from_hamiltonian": gm.Decomposition.from_hamiltonian,
       "from_gf": gm.Decomposition.from_gf, "decompose_gf": gm.decompose_gf, "decompose_hamiltonian": gm.decompose_hamiltonian}


def session(R, sc, sid, rng, rep):
    kind, shape, n = sc["kind"], SH[sc["shape"]], sc["n"]
    her = kind in ("her", "from_hamiltonian", "decompose_hamiltonian")
    mat = matrix(rng, shape, n, sc["dtype"], "her" if her else ("sym" if kind == "sym" else ""), sc["struct"])
    size = int(np.prod(shape, dtype=int))
    rows = [dict(mat=m) for m in mat.reshape((size, n, n))]
    box = {}

    def deco():
        box["d"] = DEC[kind](mat.copy())
        return box["d"]
    pick = (lambda d: dict(rv=d.rv, eig=d.eig, rv_inv=d.rv_inv, s=d.s, u=d.u, uh=d.uh)) if her else (lambda d: dict(rv=d.rv, eig=d.eig, rv_inv=d.rv_inv))
    core = dict(rv=(n, n), eig=(n,), rv_inv=(n, n), s=(n,), u=(n, n), uh=(n, n))
    evs = [R.ev("decompose", deco, rows, shape, core=core, pick=pick, kind=kind, her=her, generic=sc["struct"] == "random" and sc["dtype"] != "int", nocorrupt=0)]
    if not evs[0]["exc"] and evs[0]["sh"]:
        d = box["d"]
        k = 0
        for a in sc["seq"]:
            z = rng.normal() + 1j*rng.uniform(0.5, 1.5)
            none = [dict() for _ in range(size)]
            kw = dict(act=a, shift=enc(z), k=k, growth="1000", nocorrupt=int(a in ("getitem", "wrap")))
            if a == "set-recip" or a == "set-shift":
                def setit():
                    d.eig = 1/d.eig if a == "set-recip" else z - d.eig
                    return d.eig
                if a == "set-recip" and np.min(abs(d.eig)) < 1e-3:
                    continue
                evs.append(R.ev("act", setit, none, shape, core=(n,), **dict(kw, nocorrupt=1)))
                k += 1
            elif a == "getitem":
                evs.append(R.ev("act", lambda: (d[0], d[1], d[2], tuple(d)), none, shape, pick=lambda t: dict(a=t[3][0], e=t[1], b=t[2], eig=d.eig),
                                core=dict(a=(n, n), b=(n, n), e=(n,), eig=(n,)), len=len(d), **kw))
            elif a == "wrap":
                w, exc = attempt(lambda: type(d).from_gf(d) is d and gm.Decomposition.from_hamiltonian(d) is d)
                evs.append(dict(op="act", exc=exc, sh=True, rows=[{}], same=bool(w), **kw))
            else:
                if a in ("full-recip", "einsum-recip") and np.min(abs(d.eig)) < 1e-3:
                    continue
                f = {"full": lambda: d.reconstruct(), "diag": lambda: d.reconstruct(kind="diag"), "fu": lambda: d.reconstruct(kind="fu"), "D": lambda: d.reconstruct(kind="Diag"),
                     "einsum": lambda: d.reconstruct(kind="...ij,...j,...jk->...ik"), "einsum-recip": lambda: d.reconstruct(1/d.eig, kind="...ij,...j,...jk->...ik"), "full-recip": lambda: d.reconstruct(1/d.eig, kind="full"),
                     "full-zero": lambda: d.reconstruct(np.zeros(d.eig.shape)), "diag-zero": lambda: d.reconstruct(eig=np.zeros(d.eig.shape), kind="diag"),
                     "diag-shift": lambda: d.reconstruct(eig=z - d.eig, kind="diag")}[a]
                evs.append(R.ev("act", f, none, shape, core=(n,) if a in ("diag", "D", "diag-shift", "diag-zero") else (n, n), **kw))
    R.add(sid, *evs)


def reject(R, sc, sid, rng, rep):
    shape, n = SH[sc["shape"]], sc["n"]
    m = matrix(rng, shape, n, sc["dtype"], sc["kind"])
    if sc["bad"] != "no":
        if sc["bad"] == "imaginary" and sc["dtype"] == "complex":   # the real part is all right
            i = tuple(rng.integers(0, s) for s in shape)
            m[i + (n - 1, 0)] += 1j*10.0**rng.uniform(-3, 0)
        elif sc["bad"] in ("one", "slightly"):
            i = tuple(rng.integers(0, s) for s in shape)
            m[i + (n - 1, 0)] += 10.0**(rng.uniform(-6, -3) if sc["bad"] == "slightly" else rng.uniform(-3, 0))
        elif sc["kind"] == "her" and sc["dtype"] == "complex":
            m = m + 0.3j*np.eye(n)
        else:
            m = m + np.triu(np.ones((n, n)), 1)*0.2
    kw = {"default": {}, "true": dict(check=True), "false": dict(check=False)}[sc["check"]]
    R.error(sid, "reject", lambda: DEC[sc["kind"]](m, **kw), must=sc["bad"] != "no" and sc["check"] != "false")


def two(R, sc, sid, rng, rep):
    bc = sc["shape"] == "bcast"
    shape = (2, 3) if bc else SH[sc["shape"]]
    z = rng.normal(size=shape) + 1j*rng.uniform(0.05, 1, shape)
    s1, s2 = ((3,), (2, 1)) if bc else (shape, shape)
    e0, e1, t = rng.normal(size=s1), rng.normal(size=s2 if not bc else s1), rng.normal(size=s2)
    if sc["dtype"] != "real":
        t = t + 1j*rng.normal(size=s2)
    if sc["dtype"] == "selfenergy":
        e0 = e0 - 1j*rng.uniform(0, 1, s1)
        e1 = e1 - 1j*rng.uniform(0, 1, s1)
    if sc["half"] == "lower":
        z, e0, e1 = z.conj(), e0.conj(), e1.conj()
    b = lambda x: np.broadcast_to(x, shape).ravel()
    rows = [dict(z=p, e0=q, e1=r, t=s) for p, q, r, s in zip(b(z), b(e0), b(e1), b(t))]
    kw = {} if sc["hilbert"] == "none" else dict(hilbert_trafo=lambda x: gt.bethe_hilbert_transform(x, half_bandwidth=1))
    R.batch(sid, "gf_2x2_z", lambda: gm.gf_2x2_z(z, eps0=e0, eps1=e1, hopping=t, **kw), rows, shape, core=(2,), hilbert=sc["hilbert"])


def construct(R, sc, sid, rng, rep):
    n = sc["n"]
    rv = matrix(rng, (), n, sc["dtype"], "")
    ri = np.linalg.inv(rv)
    d = rng.normal(size=n) + 1j*rng.uniform(0.1, 1, n)
    R.one(sid, "construct_gf", lambda: gm.construct_gf(rv, d, ri), dict(rv=rv, rv_inv=ri, d=d), core=(n, n))
