import numpy as np
from gftool import fourier as ft, hermpade


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 3)):
            one(R, sc, rep)


def draw_z(rng, kind, shape, sgn, dt):
    z = rng.uniform(-4, 4, shape) + 1j*rng.uniform(0.05, 3, shape)
    if kind == "real":
        z = z.real + 0j
    elif kind == "zero":
        z[...] = 0
    elif kind == "tiny":
        z = z*10.0**rng.uniform(-17, -2, shape)
    elif kind == "big":
        z = z*8
    elif kind == "mixed":
        z[..., 0] = 0
        if shape[-1] > 1:
            z[..., 1] *= 1e-9
    z = np.where(abs(z.imag) > 0, z.real + 1j*sgn*abs(z.imag), z.real)
    return z


def one(R, sc, rep):
    op = sc["op"]
    sid = "/".join(f"{k}={sc[k]}" for k in sorted(sc)) + f"/{rep}"
    rng = R.rng(sid)
    nz = 3
    if op in ("tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z", "tt2z_trapz-noneq", "tt2z-boundary"):
        n = sc["n"]
        sgn = 1 if sc["side"] == "ret" else -1
        dt = rng.uniform(0.05, 0.7)
        tt = sgn*dt*np.arange(n)
        if sc["side"] == "adv" and rep % 2 == 0:
            tt = tt[::-1].copy()
        if op != "tt2z" and rep == 1:
            tt = tt + sgn*0.3
        if op == "tt2z_trapz-noneq":
            tt = sgn*np.cumsum(rng.uniform(0.05, 0.7, n))
        batch = sc.get("batch", "none")
        gs = {"none": (), "gf": (2,), "both": (2,), "mat": (2, 2)}[batch]
        zs = {"none": (nz,), "gf": (nz,), "both": (2, nz), "mat": (2, nz)}[batch]
        gf = rng.uniform(-1, 1, gs + (n,)) + 1j*rng.uniform(-1, 1, gs + (n,))
        if rep == 2:
            gf = gf.real.copy()
        z = draw_z(rng, sc["z"], zs, sgn, dt)
        es = np.broadcast_shapes(gs + (1,), zs)
        zb = np.broadcast_to(z, es).reshape(-1)
        gb = np.broadcast_to(gf[..., None, :], es + (n,)).reshape(-1, n)
        rows = [dict(t=tt, z=a, g=b) for a, b in zip(zb, gb)]
        f = {"tt2z": lambda: ft.tt2z(tt, gf, z), "tt2z-boundary": lambda: ft.tt2z(tt, gf, z, laplace=ft.tt2z_lin),
             "tt2z_trapz-noneq": lambda: ft.tt2z_trapz(tt, gf, z)}.get(op, None) or (lambda: getattr(ft, op)(tt, gf, z))
        R.batch(sid, op, f, rows, es)
        return
    if op in ("tt2z_pade", "tt2z_lpz", "tt2z_pade-degree"):
        k = sc["k"]
        gs = {"none": (), "gf": (2,)}[sc["batch"]]
        dt = rng.uniform(0.2, 0.6)
        a = rng.uniform(0.3, 1, gs + (k,))*np.exp(2j*np.pi*rng.uniform(size=gs + (k,)))
        # well separated exponents
        ph = (np.arange(k) + rng.uniform(-0.2, 0.2, gs + (k,)))*2*np.pi/k
        q = rng.uniform(0.55, 0.9, gs + (k,))*np.exp(1j*ph)
        if sc["quad"] == "simps":
            q = rng.uniform(0.55, 0.9, gs + (k,))*np.exp(0.45j*ph)
        deg = 2*k if sc["quad"] == "simps" else k
        if op == "tt2z_pade":
            n = 2*deg + 1 + sc["extra"]
        elif op == "tt2z_pade-degree":
            # degree d: numerator degree deg+d+1; represented if it is at least the numerator degree of the sum
            d = sc["degree"]
            n = 2*k + d + 2 if d >= -1 else 2*(k + 1) + d + 2
        else:
            n = 2*(k + 1) + 2 + sc["extra"]
            if sc["order"] == "default":
                n = 2*(k + 1)+1
        j = np.arange(n)
        gf = np.sum(a[..., None, :]*q[..., None, :]**j[:, None], axis=-1)
        tt = dt*j
        z = (rng.uniform(-3, 3, nz) + 1j*rng.uniform(0.1, 2, nz))
        es = gs + (nz,)
        pad = lambda x: np.broadcast_to(x[..., None, :], es + x.shape[-1:]).reshape(-1, x.shape[-1])
        rows = [dict(t=tt, z=w, g=g, a=x, q=y) for w, g, x, y in zip(np.broadcast_to(z, es).reshape(-1), pad(gf), pad(a), pad(q))]
        kw = dict(quad=sc["quad"])
        if op == "tt2z_pade":
            if sc["quad"] == "trapz" and rep == 0:
                kw = {}
            if sc["alg"] != "default":
                kw["pade"] = getattr(hermpade, sc["alg"])
            f = (lambda: ft.tt2z(tt, gf, z, laplace=ft.tt2z_pade, **kw)) if sc["via"] else (lambda: ft.tt2z_pade(tt, gf, z, **kw))
        elif op == "tt2z_pade-degree":
            f = lambda: ft.tt2z_pade(tt, gf, z, degree=sc["degree"], **kw)
        else:
            if sc["order"] == "given":
                kw["order"] = k + 1
            f = lambda: ft.tt2z_lpz(tt, gf, z, **kw)
        R.batch(sid, op, f, rows, es, quad=sc["quad"])
        return
    if op == "tt2z_herm2":
        d = sc["d"]
        gs = {"none": (), "gf": (2,)}[sc["batch"]]
        n = 3*d + 2
        dt = rng.uniform(0.2, 0.6)
        size = int(np.prod(gs, dtype=int))
        P, Q, RR, S = [], [], [], []
        for _ in range(size):
            p, q, r, s = algebraic(rng, d, 60)
            P.append(p), Q.append(q), RR.append(r), S.append(s)
        S = np.array(S)
        c = S[:, :n]
        if sc["quad"] == "trapz":
            gf = c/dt
            gf[:, 0] *= 2
        else:
            w = np.where(np.arange(n) % 2 == 1, 4, 2)
            w[0] = 1
            gf = c/dt*3/w
        gf = gf.reshape(gs + (n,))
        tt = dt*np.arange(n)
        z = rng.uniform(-3, 3, nz) + 1j*rng.uniform(1.5, 3, nz)/dt
        es = gs + (nz,)
        rows = [dict(t=tt, z=w, g=gf.reshape(size, n)[i], p=P[i], q=Q[i], r=RR[i], series=S[i]) for i in range(size) for w in z]
        R.batch(sid, op, lambda: ft.tt2z_herm2(tt, gf, z, quad=sc["quad"]), rows, es, quad=sc["quad"])
        return
    if op == "reject-half-plane":
        n = sc["n"]
        tt = np.linspace(0, 2, n)
        z = rng.uniform(-1, 1, 3) + 1j*rng.uniform(0.1, 1, 3)
        case = sc["case"]
        if case == "ret-lower":
            z = z.conj()
        elif case == "adv-upper":
            tt = -tt
        elif case == "mixed-z":
            z[0] = z[0].conj()
        elif case in ("adv-mixed-z", "adv-one-bad-z", "adv-one-bad-t"):
            tt, z = -tt, z.conj()
            if case == "adv-mixed-z":
                z[0] = z[0].conj()
            elif case == "adv-one-bad-z":
                z[-1] = z[-1].real + 1e-9j
            else:
                tt[-1] = 1e-6
        elif case == "one-bad-t":
            tt[0] = -1e-6
        elif case == "one-bad-z":
            z[-1] = z[-1].real - 1e-9j
        elif case == "mixed-t":
            tt = np.linspace(-1, 1, n)
            z = z.real + 1j*abs(z.imag)
        gf = rng.uniform(-1, 1, n)
        R.error(sid, op, lambda: ft.tt2z(tt, gf, z))
        return
    if op == "reject-nonequidistant":
        n = sc["n"]
        tt = np.linspace(0, 2, n)
        tt[-1 if rep == 0 else 1] += 0.01
        gf = rng.uniform(-1, 1, n) + 0j
        z = np.array([0.3 + 1j, 1j])
        R.error(sid, op, lambda: getattr(ft, sc["backend"])(tt, gf, z))
        return
    if op == "reject-quad":
        tt = np.linspace(0, 2, sc["n"])
        gf = rng.uniform(-1, 1, sc["n"]) + 0j
        z = np.array([0.3 + 1j, 1j])
        R.error(sid, op, lambda: getattr(ft, sc["backend"])(tt, gf, z, quad=["trapezoid", "simpson", "lin"][rep]))
        return
    if op == "tt2z-empty":
        n = sc["n"]
        if sc["case"] == "noz":
            tt, gf, z, es = np.linspace(0, 1, max(n, 2)), rng.uniform(size=(2, max(n, 2))), np.zeros(0, complex), (2, 0)
        else:
            tt, gf, z, es = np.linspace(0, 1, max(n, 2)), np.zeros((0, max(n, 2))), np.array([1j, 2j]), (0, 2)
        R.batch(sid, op, lambda: ft.tt2z(tt, gf, z), [dict()]*0, es, nocorrupt=1)


def algebraic(rng, d, m):
    """Polynomials p,q,r of degree d and the power series of a root f of p + q f + r f^2."""
    while True:
        p, q, r = (rng.uniform(-1, 1, d + 1) for _ in range(3))
        q[0] = rng.choice([-1, 1])*rng.uniform(1.5, 2)
        disc = q[0]**2 - 4*p[0]*r[0]
        if disc < 1 or abs(r[0]) < 0.3:
            continue
        f0 = (-q[0] + rng.choice([-1, 1])*np.sqrt(disc))/(2*r[0])
        if abs(f0) > 4:
            continue
        f = np.zeros(m)
        f[0] = f0
        get = lambda c, i: c[i] if 0 <= i < len(c) else 0.0
        ok = True
        for k in range(1, m):
            # coefficient k of p + q f + r f^2 is zero; linear in f[k]
            f2 = np.convolve(f[:k], f[:k])
            rest = get(p, k) + sum(get(q, i)*f[k-i] for i in range(1, k + 1))
            ff = [get(f2, i) if i < k else get(f2, k) for i in range(k + 1)]
            rest += sum(get(r, i)*ff[k-i] for i in range(0, k + 1))
            f[k] = -rest/(q[0] + 2*r[0]*f[0])
            if abs(f[k]) > 6.0**k:
                ok = False
                break
        if ok and abs(f[-1]) < 3.0**m:
            return p, q, r, f
