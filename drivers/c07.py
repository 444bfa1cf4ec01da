import numpy as np
import gftool as gt
from gftool import fourier as ft
from gftool.basis import pole as P


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 3)):
            one(R, sc, rep)


def cheb(n):
    return np.sin(np.pi*(np.arange(n)*2 + 1 - n)/(2*n)) if n else np.zeros(0)


def pick(n):
    def f(res):
        p, x = res.poles, res.residues
        return dict(op=np.broadcast_to(p, x.shape[:-1] + p.shape[-1:]) if n else np.zeros(x.shape), ox=x)
    return f


def one(R, sc, rep):
    op = sc["op"]
    sid = "/".join(f"{k}={sc[k]}" for k in sorted(sc)) + f"/{rep}"
    rng = R.rng(sid)
    if op == "reject-overconstrained":
        n = sc["n"]
        tau = np.linspace(0, 3, 9)
        mom = np.ones(n + (sc["fn"] != "from_tau-occ"))
        z = 1j*np.arange(1, 8)
        if sc["fn"] == "from_z":
            f = P.PoleFct.from_z if sc["obj"] else P.gf_from_z
            R.error(sid, op, lambda: f(z, 1/z, n, moments=mom))
        else:
            f = P.PoleGf.from_tau if sc["obj"] else P.gf_from_tau
            kw = dict(occ=0.4) if sc["fn"] == "from_tau-occ" else {}
            R.error(sid, op, lambda: f(-np.exp(-tau), n, 3., moments=mom, **kw))
        return
    n = sc["n"]
    if op in ("izp2tau-exact", "tau2izp-exact"):
        # constraints that contradict the (noisy) data: they hold exactly, the data only approximately
        beta = rng.uniform(0.5, 2) if op == "tau2izp-exact" else rng.uniform(2, 20)
        e, v = np.linalg.eigh(_bmat(n))
        izp = 1j/e[::-1][:n]/beta
        rid = 0.25*v[0, ::-1][:n]**2/e[::-1][:n]**2
        if op == "tau2izp-exact":  # one more frequency, far out
            izp, rid = np.append(izp, 1e7j), np.append(rid, 0)
        k = rng.integers(1, 5)
        p, w = rng.uniform(-1, 1, k), rng.uniform(0.1, 1, k)
        w /= w.sum()
        mom = np.array([np.sum(w*p**i) for i in range(sc["m"])])
        scale = 0.1 if op == "izp2tau-exact" else 1e-3
        if sc["given"] in ("moments", "both"):
            mom = mom + rng.uniform(0.05, 0.3, sc["m"])*np.array([1, -1, 1])[:sc["m"]]*scale
        kw = dict(moments=mom if rep % 2 else mom.tolist())
        if op == "izp2tau-exact":
            h = 1e-3*beta/20
            x = np.array([0, 1, 2, 3, 4])*h
            x = np.concatenate([x, (beta - x)[::-1]])
            gz = np.sum(w/(izp[:, None] - p), axis=-1)
            R.batch(sid, op, lambda: ft.izp2tau(izp, gz, x, beta, **kw), [dict(h=h, mom=mom)], (), core=x.shape)
            return
        tau = np.linspace(0, beta, 61)
        g = -np.sum(w*np.exp(-tau[:, None]*p)/(1 + np.exp(-beta*p)), axis=-1)
        occ = np.sum(w/(1 + np.exp(beta*p)))
        if sc["given"] in ("occ", "both"):
            occ = occ + scale*rng.uniform(0.03, 0.1)*rng.choice([-1, 1])
            kw["occ"] = occ
        if sc["m"] == 0:
            del kw["moments"]
            mom = np.array([-g[0] - g[-1]])
        if sc["weight"]:
            kw["weight"] = rng.uniform(0.3, 3, tau.size)
        R.batch(sid, op, lambda: ft.tau2izp(g, beta, izp, **kw), [dict(izp=izp, rid=rid, beta=beta, mom=mom, occ=occ)], (),
                core=izp.shape, occ=int("occ" in kw))
        return
    if op == "tau2izp-weight":  # a few wrong values of negligible weight do not matter
        beta = rng.uniform(2, 20)
        izp = 1j/np.linalg.eigvalsh(_bmat(n))[::-1][:n]/beta
        p, w = rng.uniform(-1, 1, (9, 4)), rng.uniform(0.1, 1, (9, 4))
        w /= w.sum(axis=-1, keepdims=True)
        tau = np.linspace(0, beta, 61)
        args = []
        for pi, wi in zip(p, w):
            g = -np.sum(wi*np.exp(-tau[:, None]*pi)/(1 + np.exp(-beta*pi)), axis=-1)
            wt = np.full(61, rng.uniform(0.5, 2))
            bad = rng.choice(np.arange(1, 60), 6, replace=False)
            wt[bad] *= 1e-10
            g[bad] += 0.3*rng.choice([-1, 1], 6)
            kw = dict(moments=[np.sum(wi*pi**i) for i in range(sc["m"])]) if sc["m"] else {}
            args.append((g, dict(kw, weight=wt)))
        R.batch(sid, op, lambda: np.stack([ft.tau2izp(g, beta, izp, **kw) for g, kw in args]), [dict(p=p, w=w, z=izp)], (),
                core=(9, izp.size))
        return
    if op in ("izp2tau", "tau2izp"):
        beta = rng.uniform(2, 20)
        mesh = n < 10
        izp = np.linalg.eigvalsh(_bmat(n))[::-1][:n]  # positive inverse frequencies
        izp = 1j/izp/beta
        if mesh:
            p = rng.uniform(0.5, 2)*cheb(n)
            w = rng.uniform(0.2, 1, n)
        else:
            k = rng.integers(1, 6)
            p, w = rng.uniform(-1, 1, k), rng.uniform(0.1, 1, k)
        w /= w.sum()
        mom = [np.sum(w*p**i) for i in range(sc["m"])]
        kw = dict(moments=mom) if sc["m"] else {}
        if op == "izp2tau":
            x = np.linspace(0, beta, 6)
            gz = np.sum(w/(izp[:, None] - p), axis=-1)
            f = lambda: ft.izp2tau(izp, gz, x, beta, **kw)
        else:
            x = izp
            tau = np.linspace(0, beta, 61)
            g = -np.sum(w*np.exp(-tau[:, None]*p)/(1 + np.exp(-beta*p)), axis=-1)
            if sc["occ"]:
                kw["occ"] = np.sum(w/(1 + np.exp(beta*p)))
            f = lambda: ft.tau2izp(g, beta, izp, **kw)
        R.batch(sid, op, f, [dict(p=p, w=w, beta=beta, x=y) for y in x], x.shape, mesh=int(mesh))
        return
    # widths
    bs = {"none": (), "vec": (2,), "mat": (2, 3)}[sc["batch"]]
    wi = sc["width"]
    if wi == "default":
        width, kw = 1.0, {}
    elif wi == "scalar":
        width = rng.uniform(0.2, 4)
        kw = dict(width=width)
    elif wi == "none":
        width, kw = None, dict(width=None)
    else:
        width = rng.uniform(0.3, 3, bs + (1,))
        kw = dict(width=width[..., 0])
    size = int(np.prod(bs, dtype=int))

    def wrow(i):
        if width is None:
            return 0
        return np.broadcast_to(width, bs + (1,)).reshape(-1)[i]
    if op == "from_moments":
        mom = rng.uniform(-2, 2, bs + (n,))
        if wi == "none" and n > 1:
            mom[..., 1] *= 10.0**-rng.integers(0, 3, bs)
        f = P.PoleFct.from_moments if sc["obj"] else P.gf_from_moments
        arg = mom if rep else mom.tolist()
        if n == 0:
            arg = mom
        R.batch(sid, op, lambda: f(arg, **kw), [dict(mom=m, width=wrow(i)) for i, m in enumerate(mom.reshape(size, n))],
                bs, core=(n,), pick=pick(n), n=n)
        return
    m = sc["m"]
    wref = np.where(width is None, 1.0, 1.0 if width is None else width) if width is None else np.asarray(width)
    if op == "from_z":
        nz = 5 if n < 8 else 17
        z = 1j*np.sort(rng.uniform(0.3, 6, nz)) + rng.uniform(-1, 1, nz)*(rep > 0)
        x = rng.uniform(-1, 1, bs + (n,))
        p = np.broadcast_to(wref*cheb(n), bs + (n,))
        g = np.sum(x[..., None, :]/(z[:, None] - p[..., None, :]), axis=-1)
        mom = np.stack([np.sum(x*p**k, axis=-1) for k in range(m)], axis=-1) if m else np.zeros(bs + (0,))
        if sc["data"] == "noise":
            g = g + rng.normal(size=g.shape) + 1j*rng.normal(size=g.shape)
            mom = mom + rng.normal(size=mom.shape)
        if wi == "none" and m > 1 and rep == 1:
            mom[..., 1] *= 1e-2
        wt = {"none": None, "vec": rng.uniform(0.2, 5, nz), "batch": rng.uniform(0.2, 5, bs + (nz,))}[sc["weight"]]
        if m:
            kw["moments"] = mom
        if wt is not None:
            kw["weight"] = wt
        f = P.PoleFct.from_z if sc["obj"] else P.gf_from_z
        ww = np.broadcast_to(1.0 if wt is None else wt, bs + (nz,)).reshape(size, nz)
        rows = [dict(z=z, g=g.reshape(size, nz)[i], wt=ww[i], mom=mom.reshape(size, m)[i], width=wrow(i)) for i in range(size)]
        R.batch(sid, op, lambda: f(z, g, n, **kw), rows, bs, core=(n,), pick=pick(n), n=n)
        return
    if op == "from_tau":
        nt = 8 if n < 8 else 41
        beta = rng.uniform(1, 6)
        tau = np.linspace(0, beta, nt)
        x = rng.uniform(-1, 1, bs + (n,))
        p = np.broadcast_to(wref*cheb(n), bs + (n,))
        g = -np.sum(x[..., None, :]*np.exp(-tau[:, None]*p[..., None, :])/(1 + np.exp(-beta*p[..., None, :])), axis=-1)
        mom = np.stack([np.sum(x*p**k, axis=-1) for k in range(m)], axis=-1) if m else np.zeros(bs + (0,))
        occ = np.sum(x/(1 + np.exp(beta*p)), axis=-1).reshape(-1)[0]
        if sc["occ"] == "zero":
            occ = 0.0 if rep else 0
        if sc["occ"] == "big":
            occ = 2.3
        if sc["data"] == "noise":
            g = g + rng.normal(size=g.shape)
            mom = mom + rng.normal(size=mom.shape)
        wt = {"none": None, "vec": rng.uniform(0.2, 5, nt), "batch": rng.uniform(0.2, 5, bs + (nt,))}[sc["weight"]]
        if m:
            kw["moments"] = mom
        if wt is not None:
            kw["weight"] = wt
        if sc["occ"] != "no":
            kw["occ"] = occ
        f = P.PoleGf.from_tau if rep % 2 else P.gf_from_tau
        ww = np.broadcast_to(1.0 if wt is None else wt, bs + (nt,)).reshape(size, nt)
        rows = [dict(g=g.reshape(size, nt)[i], wt=ww[i], beta=beta, occ=occ, mom=mom.reshape(size, m)[i], width=wrow(i)) for i in range(size)]
        R.batch(sid, op, lambda: f(g, n, beta, **kw), rows, bs, core=(n,), pick=pick(n), n=n, occ=int(sc["occ"] != "no"))


def _bmat(num):
    a = -np.arange(2*num)
    return np.diag(1/(2*np.sqrt((2*a[1:] - 1)*(2*a[1:] + 1.0))), 1) + np.diag(1/(2*np.sqrt((2*a[1:] - 1)*(2*a[1:] + 1.0))), -1)
