import numpy as np
import gftool as gt
from gftool import fourier as ft


def cheb(n):
    return np.sin(0.5*np.pi/n*np.arange(-n + 1, n + 1, 2))


def moments(p, w, m):
    return np.stack([np.sum(w*p**k, axis=-1) for k in range(m)], axis=-1)


def gz(z, p, w):
    return np.sum(w[..., None, :]/(z[:, None] - p), axis=-1)


def gtau(tau, p, w, beta):
    # single pole functions evaluated without overflow
    e = np.where(p >= 0, -tau[:, None]*p, (beta - tau[:, None])*p)
    return np.sum(w[..., None, :]*-np.exp(e)/(1 + np.exp(-abs(beta*p))), axis=-1)


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 3)):
            one(R, sc, rep)


def one(R, sc, rep):
    op, n, batch = sc["op"], sc["n"], sc["batch"]
    sid = "/".join(f"{k}={sc[k]}" for k in sorted(sc)) + f"/{rep}"
    rng = R.rng(sid)
    bs = {"none": (), "vec": (2,), "mat": (2, 3)}[batch]
    beta = float(rng.uniform(0.7, 3)) if sc["beta"] == "one" else float(rng.uniform(8, 40))
    if rep == 2:
        beta = int(np.ceil(beta))
    size = int(np.prod(bs, dtype=int))

    def rows(**kw):
        return [dict(beta=beta, **{k: v.reshape((size,) + v.shape[len(bs):])[i] for k, v in kw.items()}) for i in range(size)]

    iws = 1j*np.pi/beta*(2*np.arange(n) + 1)
    tau = np.linspace(0, beta, n)
    cplx = rng.uniform(-1, 1, bs + (n,)) + 1j*rng.uniform(-1, 1, bs + (n,))
    real = rng.uniform(-1, 1, bs + (n,))
    if op in ("iw2tau_dft", "iw2tau_dft_soft"):
        R.batch(sid, op, lambda: getattr(ft, op)(cplx, beta=beta), rows(g=cplx), bs, core=(2*n + 1,))
    elif op in ("tau2iw_dft", "tau2iw_ft_lin"):
        R.batch(sid, op, lambda: getattr(ft, op)(real, beta=beta), rows(g=real), bs, core=(n//2,))
    elif op in ("iw2tau", "tau2iw"):
        m = sc["mom"]
        mb = bs if sc["perbatch"] else ()
        mom = rng.uniform(-1.5, 1.5, mb + (m,))
        if m:
            mom[..., 0] = rng.uniform(0.5, 1.5, mb)
        kw = {}
        if op == "iw2tau":
            if sc["fourier"] == "soft":
                kw["fourier"] = ft.iw2tau_dft_soft
            if m == 1 and not sc["perbatch"] and rep % 2 == 0:
                mom[:] = 1.0  # default value of the API
            else:
                kw["moments"] = mom if rep != 1 else mom.tolist()
            R.batch(sid, op, lambda: ft.iw2tau(cplx, beta=beta, **kw), rows(g=cplx, mom=np.broadcast_to(mom, bs + (m,))), bs,
                    core=(2*n + 1,), fourier=sc["fourier"])
        else:
            if sc["fourier"] == "dft":
                kw["fourier"] = ft.tau2iw_dft
            if m:
                kw["moments"] = mom
                if rep == 1:
                    kw["n_pole"] = m
            R.batch(sid, op, lambda: ft.tau2iw(real, beta=beta, **kw), rows(g=real, mom=np.broadcast_to(mom, bs + (m,))), bs,
                    core=(n//2,), fourier=sc["fourier"], hasmom=bool(m))
    elif op == "iw2tau-fit":
        m, f = sc["mom"], sc["fit"]
        p = cheb(m + f)
        w = rng.uniform(-0.3, 1, bs + (m + f,))
        g = gz(iws, p, w)
        kw = {"fourier": ft.iw2tau_dft_soft} if sc["fourier"] == "soft" else {}
        R.batch(sid, op, lambda: ft.iw2tau(g, beta=beta, moments=moments(p, w, m), n_fit=f, **kw),
                rows(g=g, w=w, p=np.broadcast_to(p, w.shape)), bs, core=(2*n + 1,), fourier=sc["fourier"])
    elif op == "tau2iw-fit":
        m, f = sc["mom"], sc["fit"]
        p = cheb(max(m, 1) + f)
        w = rng.uniform(-0.3, 1, bs + p.shape)
        g = gtau(tau, p, w, beta)
        kw = {"fourier": ft.tau2iw_dft} if sc["fourier"] == "dft" else {}
        if m:
            kw["moments"] = moments(p, w, m)
        R.batch(sid, op, lambda: ft.tau2iw(g, beta=beta, n_pole=p.size, **kw),
                rows(g=g, w=w, p=np.broadcast_to(p, w.shape)), bs, core=(n//2,), fourier=sc["fourier"])
    elif op == "roundtrip":
        m = sc["mom"]
        p = cheb(m)
        w = rng.uniform(-0.3, 1, bs + (m,))
        g = gz(iws, p, w)
        mom = moments(p, w, m)
        gt_, exc = None, ""
        e1 = R.ev("iw2tau", lambda: ft.iw2tau(g, beta=beta, moments=mom), rows(g=g, mom=mom), bs, core=(2*n + 1,), fourier="default")
        e2 = R.ev("roundtrip-back", lambda: ft.tau2iw(ft.iw2tau(g, beta=beta, moments=mom), beta=beta, moments=mom),
                  rows(g=g, w=w, p=np.broadcast_to(p, w.shape)), bs, core=(n,), fourier="default")
        R.add(sid, e1, e2)
