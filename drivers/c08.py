import numpy as np
import gftool as gt


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 3)):
            one(R, sc, rep)


def cheb(n):
    return np.sin(np.pi*(np.arange(n)*2 + 1 - n)/(2*n)) if n else np.zeros(0)


def matsubara(n, beta):
    return 1j*np.pi/beta*(2*np.arange(n) + 1)


def unitary(rng, n, cplx):
    a = rng.normal(size=(n, n)) + (1j*rng.normal(size=(n, n)) if cplx else 0)
    return np.linalg.qr(a)[0]


def one(R, sc, rep):
    op = sc["op"]
    sid = "/".join(f"{k}={sc[k]}" for k in sorted(sc)) + f"/{rep}"
    rng = R.rng(sid)
    nw = sc["nw"]
    beta = rng.uniform(1, 12)
    if op == "density_iw":
        m, fit = sc["m"], sc["fit"]
        n = m + fit
        bs = {"none": (), "gf": (2,), "all": (2,), "mom": (2,), "mat": (2, 3)}[sc["batch"]]
        iw = matsubara(nw, beta)
        wt = np.ones(nw)
        kw = {}
        if sc["freq"] == "pade":  # any positive frequencies and residues
            iw = iw*(1 + np.sort(rng.uniform(0, 1, nw)))
            wt = rng.uniform(0.5, 2, nw)
            kw["weights"] = wt
        elif sc["freq"] == "constant":  # one weight for all frequencies
            wt = wt*rng.uniform(0.5, 2)
            kw["weights"] = wt
        if sc["batch"] in ("all", "mat"):
            iw = iw*rng.uniform(1, 1.5, bs + (1,))
            if sc["freq"] == "pade":
                wt = wt*rng.uniform(0.5, 1.5, bs + (1,))
                kw["weights"] = wt
        # model on the mesh
        width = 1.0
        p = np.broadcast_to(cheb(n), bs + (n,)).copy()
        w = rng.uniform(0.2, 1, bs + (n,))
        exact = sc["data"] == "mesh"
        if exact and m >= 2:
            # second moment below the threshold: width one
            w = w/np.sum(w, axis=-1, keepdims=True)
            w = 0.5*(w + w[..., ::-1])
        mom = np.stack([np.sum(w*p**k, axis=-1) for k in range(m)], axis=-1)
        g = np.sum(w[..., None, :]/(iw[..., None] - p[..., None, :]), axis=-1)
        if not exact:
            g = g + 0.3*(rng.normal(size=g.shape) + 1j*rng.normal(size=g.shape))
            mom = mom + rng.uniform(-0.6, 0.6, mom.shape)
        if sc["batch"] == "mom":  # one set of moments for all
            mom = mom.reshape(-1, m)[0]
            exact = False
        if m == 1 and not exact and sc["batch"] == "none" and rep == 0:
            mom = np.ones(1)
        else:
            kw["moments"] = mom if rep else mom.tolist()
        if fit:
            kw["n_fit"] = fit
        size = int(np.prod(bs, dtype=int))
        bc = lambda a, k: np.broadcast_to(a, bs + (k,)).reshape(size, k)
        rows = [dict(iw=bc(iw, nw)[i], g=bc(g, nw)[i], wt=bc(wt, nw)[i], mom=bc(mom, m)[i], p=bc(p, n)[i], w=bc(w, n)[i], beta=beta) for i in range(size)]
        R.batch(sid, op, lambda: gt.density_iw(iw, g, beta, **kw), rows, bs, fit=fit, exact=int(exact))
        return
    if op in ("density", "check_convergence"):
        kind = sc["kind"]
        total = kind.startswith("total")
        matrix = "matrix" in kind
        kw = {}
        if matrix:
            d = 3 if kind == "matrix3" else 2
            U = unitary(rng, d, kind == "matrixc")
            e = rng.uniform(-2, 2, d)
            pot = (U*e) @ U.conj().T
            pot = 0.5*(pot + pot.conj().T)
            kw["matrix"] = True
            bs = (d,)
        else:
            bs = {"scalar": (), "vec": (3,), "mat2d": (2, 2), "total": (3,), "total-tuple": (2, 2), "total-2d": (2, 3)}[kind]
            e = rng.uniform(-2, 2, bs)
            pot = e if bs else float(e)
            e = np.ravel(e)
            U = np.eye(e.size)
        iw = matsubara(nw, beta)
        tail = np.einsum("ik,ik,nk->in", U, U.conj(), 1/(iw[:, None] + e))
        if total:
            kw["total"] = True if kind != "total-tuple" else (0, 1)
            bs = ()
            tail = tail.sum(axis=0)
        g = tail.reshape(bs + (nw,))
        if sc.get("model", "noise") == "noise":
            g = g + 0.2*(rng.normal(size=g.shape) + 1j*rng.normal(size=g.shape))
        size = int(np.prod(bs, dtype=int))
        gg = g.reshape(size, nw)
        rows = [dict(g=gg[i], U=U, e=e, beta=beta) for i in range(size)]
        if op == "density":
            err = {"true": True, "false": False, "float": 1e3}[sc["err"]]
            if not (err is True and rep == 0):
                kw["return_err"] = err
            ispair = sc["err"] == "true"
            pick = (lambda r: dict(ox=r.x, oerr=r.err)) if ispair else (lambda r: dict(ox=r))
            e_ = R.ev(op, lambda: gt.density(g, pot, beta, **kw), rows, bs, pick=pick, total=int(total), err=int(ispair))
        else:
            if not (sc["order"] == 2 and rep == 0):
                kw["order"] = sc["order"]
            e_ = R.ev(op, lambda: gt.check_convergence(g, pot, beta, **kw), rows, bs, core=(nw,), total=int(total), order=sc["order"])
        for i, r in enumerate(e_["rows"]):
            r["i"] = i + 1
        R.add(sid, e_)
        return
    bs = {"none": (), "vec": (3,)}[sc["batch"]]
    iw = matsubara(nw, beta)
    if sc["data"] == "power":
        d = rng.uniform(-1, 1, bs + (1,))/iw.imag**(2 if op == "density_error" else 3)
    else:
        d = rng.normal(size=bs + (nw,))/iw.imag**2
    if rep == 2:
        d = d + 1j*rng.normal(size=d.shape)
        if op == "density_error":
            d = d.real + 0.0
    rows = [dict(d=x, iw=iw) for x in d.reshape(-1, nw)]
    if op == "density_error":
        kw = {} if sc["noisy"] and rep == 0 else dict(noisy=sc["noisy"])
        R.batch(sid, op, lambda: gt.density_error(d, iw, **kw), rows, bs, noisy=int(sc["noisy"]))
    else:
        R.batch(sid, op, lambda: gt.density_error2(d, iw), rows, bs, noisy=0)
