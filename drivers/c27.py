"""Walks through the representations of one Green's function."""
import numpy as np
import gftool as gt
from gftool import fourier as ft, hermpade, linalg, linearprediction as lp, matrix as gtm, pade, polepade, siam
from gftool.basis.pole import PoleGf
from vf import attempt, enc

BSH = {"none": (), "2": (2,), "2x3": (2, 3)}
N_IW = 24


class Walk:
    def __init__(self, rng, n, bsh):
        self.n, self.bsh = n, bsh
        self.beta = float(rng.uniform(2, 5))
        self.dt = float(rng.uniform(0.2, 0.5))
        self.poles = np.sin(0.5*np.pi/n*np.arange(-n + 1, n + 1, 2))
        w = 1 + rng.uniform(-0.3, 0.3, bsh + (n,))
        w = 0.55*w + 0.45*w[..., ::-1]   # nearly symmetric: the automatic width of the fits is 1
        self.w = w/w.sum(axis=-1, keepdims=True)
        k = 2*n + 3
        self.z = np.linspace(-1.7, 1.9, k) + 1j*rng.uniform(0.4, 1.1, k)
        self.iws = gt.matsubara_frequencies(range(N_IW), beta=self.beta)
        self.izp, self.rp = gt.pade_frequencies(10, beta=self.beta)
        self.tau = np.linspace(0, self.beta, 2*N_IW + 1)
        self.nt = 3*n + 4
        self.moms = np.stack([(self.w*self.poles**k).sum(axis=-1) for k in range(2*n)], axis=-1)
        self.mu0 = float(rng.uniform(-1, 1))
        self.val = (np.broadcast_to(self.poles, bsh + (n,)), self.w)

    # helpers
    def pg(self):
        p, w = self.val
        return PoleGf(poles=p, residues=w)

    def ax(self):   # poles with an axis for the mesh
        p, w = self.val
        return PoleGf(poles=p[..., np.newaxis, :], residues=w[..., np.newaxis, :])

    def thiele(self, z_in, f, z_out, averaged=False):
        m = 2*self.n
        if averaged:
            return pade.averaged(z_out, z_in[:m], fct_z=f[..., :m], kind=pade.KindGf(m - 1, m)).x
        c = pade.coefficients(z_in[:m], f[..., :m])
        *_, last = pade.calc_iterator(z_out, z_in[:m], c)
        return last

    def each(self, f, *args):   # functions without batch dimension
        flat = [a.reshape((-1,) + a.shape[len(self.bsh):]) for a in args]
        out = [f(*a) for a in zip(*flat)]
        return np.array(out).reshape(self.bsh + np.shape(out[0]))

    def tail(self):
        return self.moms[..., :max(1, self.n - 1)], self.n - max(1, self.n - 1)

    def ham(self):
        p, w = self.val
        first = np.sqrt(abs(w))[..., np.newaxis]
        q = np.swapaxes(first, -1, -2)
        if self.n > 1:
            q = np.concatenate([q, linalg.orth_compl(first)], axis=-2)
        return gtm.UDecomposition(rv=q, eig=p, rv_inv=np.swapaxes(q, -1, -2).conj()).reconstruct(kind="full")

    def split(self):
        h = self.val
        dec = gtm.decompose_her(h[..., 1:, 1:])
        hop = (h[..., np.newaxis, 0, 1:] @ dec.rv)[..., 0, :]
        return np.concatenate([h[..., 0, :1].real, dec.eig, hop.real], axis=-1)

    def parts(self, axis=True):
        s, n = self.val, self.n
        e0, eb, v = s[..., 0], s[..., 1:n], s[..., n:]
        return (e0[..., np.newaxis], eb[..., np.newaxis, :], v[..., np.newaxis, :]) if axis else (e0, eb, v)

    def her_poles(self):
        dec = gtm.decompose_hamiltonian(self.val)
        return dec.eig, abs(dec.rv[..., 0, :])**2

    def her_z(self):
        dec = gtm.decompose_her(self.val)
        e = 1/(self.z[:, np.newaxis] - dec.eig[..., np.newaxis, :])
        big = gtm.UDecomposition(rv=dec.rv[..., np.newaxis, :, :], eig=dec.eig[..., np.newaxis, :], rv_inv=dec.rv_inv[..., np.newaxis, :, :])
        return big.reconstruct(e, kind="diag")[..., 0]

    def her_gf(self):
        h = self.val[..., np.newaxis, :, :]
        dec = gtm.decompose_gf(self.z[:, np.newaxis, np.newaxis]*np.eye(self.n) - h)
        return dec.reconstruct(1/dec.eig, kind="full")[..., 0, 0]

    def rational(self, f):
        an = np.concatenate([np.zeros(self.bsh + (1,)), self.val], axis=-1)
        return self.each(lambda a: f(a, num_deg=self.n, den_deg=self.n).eval(1/self.z), an)

    def predicted(self):
        coeff, _ = lp.pcoeff_covar(self.val, order=self.n)
        return lp.predict(self.val, coeff, num=7)

    def laplace(self):
        tt = self.dt*np.arange(self.val.shape[-1])
        return ft.tt2z(tt, self.val, self.z, laplace=ft.tt2z_lpz, order=self.n + 1)   # the halved first value takes one more order

    def mu(self):
        occ = self.val
        p = np.broadcast_to(self.poles, self.bsh + (self.n,))
        return self.each(lambda o, p, w: gt.chemical_potential(lambda m: PoleGf(poles=p - m, residues=w).occ(self.beta) - o, mu0=self.mu0), occ, p, self.w)

    def edge(self, e):
        """Function and mesh of the edge."""
        s, b = self, self.beta
        tail, fit = self.tail()
        v = self.val
        fit_z = lambda z: PoleGf.from_z(z, v, n_pole=s.n)
        return {"P>Z": (lambda: s.ax().eval_z(s.z), s.z), "P>W": (lambda: s.ax().eval_z(s.iws), s.iws), "P>I": (lambda: s.ax().eval_z(s.izp), s.izp),
                "P>T": (lambda: s.ax().eval_tau(s.tau, b), s.tau), "P>R": (lambda: s.ax().eval_ret_t(s.dt*np.arange(s.nt)), s.dt*np.arange(s.nt)),
                "P>M": (lambda: s.pg().moments(np.arange(1, 2*s.n + 1)), np.arange(1, 2*s.n + 1)), "P>O": (lambda: s.pg().occ(b), []), "P>H": (s.ham, []),
                "Z>P": (lambda: fit_z(s.z), []), "Z>W": (lambda: s.thiele(s.z, v, s.iws), s.iws), "Z>Zp": (lambda: s.thiele(s.z, v, s.z + 0.3), s.z + 0.3),
                "W>P": (lambda: fit_z(s.iws), []), "W>T": (lambda: ft.iw2tau(v, b, moments=s.moms[..., :s.n]), s.tau),
                "W>Tf": (lambda: ft.iw2tau(v, b, moments=tail, n_fit=fit), s.tau), "W>Z": (lambda: s.thiele(s.iws, v, s.z), s.z),
                "W>Za": (lambda: s.thiele(s.iws, v, s.z, True), s.z),
                "W>Zc": (lambda: s.each(lambda g: polepade.continuation(s.iws, g, degree=-1).eval_polefct(s.z), v), s.z),
                "W>O": (lambda: gt.density_iw(s.iws, v, b, moments=s.moms[..., :s.n]), []), "W>Of": (lambda: gt.density_iw(s.iws, v, b, moments=tail, n_fit=fit), []),
                "I>P": (lambda: fit_z(s.izp), []), "I>O": (lambda: gt.density_iw(s.izp, v, b, weights=s.rp, moments=s.moms[..., :s.n]), []),
                "I>Of": (lambda: gt.density_iw(s.izp, v, b, weights=s.rp, moments=tail, n_fit=fit), []), "I>Z": (lambda: s.thiele(s.izp, v, s.z), s.z),
                "T>P": (lambda: PoleGf.from_tau(v, n_pole=s.n, beta=b), []), "T>W": (lambda: ft.tau2iw(v, b, n_pole=s.n), s.iws),
                "T>Po": (lambda: PoleGf.from_tau(v, n_pole=s.n, beta=b, moments=s.moms[..., :1] if s.n > 1 else ()), []),
                "R>R": (s.predicted, None), "R>Q": (s.laplace, s.z),
                "M>P": (lambda: PoleGf.from_moments(v[..., :s.n]), []), "M>Z": (lambda: s.rational(hermpade.pade), s.z), "M>Zr": (lambda: s.rational(hermpade.pader), s.z),
                "H>P": (s.her_poles, []), "H>Z": (s.her_z, s.z), "H>S": (s.split, []), "H>Zg": (s.her_gf, s.z),
                "S>Z": (lambda: siam.gf0_loc_z(s.z, *(lambda e0, eb, t: (e0, eb, t**2))(*s.parts())), s.z),
                "S>R": (lambda: siam.gf0_loc_ret_t(s.dt*np.arange(s.nt), *s.parts()), s.dt*np.arange(s.nt)),
                "S>Zh": (lambda: (lambda e0, eb, t: 1/(s.z - e0 - siam.hybrid_z(s.z, eb, t**2)))(*s.parts()), s.z),
                "S>Rg": (lambda: siam.gf0_loc_gr_t(s.dt*np.arange(s.nt), *s.parts(), beta=b) - siam.gf0_loc_le_t(s.dt*np.arange(s.nt), *s.parts(), beta=b), s.dt*np.arange(s.nt)),
                "H>Z2": (lambda: gtm.gf_2x2_z(s.z, v[..., 0, 0, np.newaxis], v[..., 1, 1, np.newaxis], v[..., 0, 1, np.newaxis])[..., 0], s.z),
                "Z>Zc": (lambda: s.each(lambda g: polepade.continuation(s.z, g, degree=-1).eval_polefct(s.z + 0.3), v), s.z + 0.3),
                "S>H": (lambda: siam.hamiltonian_matrix(*s.parts(False)), []), "S>O": (lambda: -1j*siam.gf0_loc_le_t(np.zeros(1), *s.parts(), beta=b)[..., 0], []),
                "O>U": (s.mu, [])}[e]


def flat(val, bsh, rep):
    """One vector per batch element."""
    if rep == "P":
        p, w = val
        val = np.concatenate([np.broadcast_to(p, bsh + np.shape(p)[-1:]), np.broadcast_to(w, bsh + np.shape(w)[-1:])], axis=-1)
    val = np.asarray(val)
    if val.shape[:len(bsh)] != bsh:
        raise ValueError(f"shape {val.shape}, expected {bsh}")
    size = int(np.prod(bsh, dtype=int))
    return val.reshape(size, -1)


def run(R):
    for sc in R.scenarios:
        if not R.thorough and len(sc["walk"]) == 4 and R.rng("pick", str(sc)).uniform() > 0.35:
            continue
        sid = f"{sc['n']}/{sc['batch']}/{','.join(sc['walk'])}"
        if R.only is not None and sid != R.only:
            continue
        bsh = BSH[sc["batch"]]
        w = Walk(R.rng(sid), sc["n"], bsh)
        cur = flat(w.val, bsh, "P")
        p, r = w.val
        evs = [dict(op="new", exc="", sh=True, beta=enc(w.beta), dt=enc(w.dt), rows=[dict(p=enc(a), w=enc(b), o=enc(c)) for a, b, c in zip(p.reshape(-1, w.n), r.reshape(-1, w.n), cur)])]
        for e in sc["walk"]:
            f, x = w.edge(e)
            res, exc = attempt(f)
            ev = dict(op=e, exc=exc, sh=True, rows=[], x=[])
            evs.append(ev)
            if exc:
                break
            try:
                new = flat(res, bsh, e[2])
                if x is None:
                    x = w.dt*np.arange(new.shape[-1])
                want = {"P": 2*w.n, "H": w.n**2, "S": 2*w.n - 1, "O": 1, "U": 1}.get(e[2], len(x))
                core = {"P": (w.n,), "H": (w.n, w.n), "O": (), "U": ()}.get(e[2], (want,))
                shapes = [np.shape(a) for a in res] if e[2] == "P" else [np.shape(res)]
                ok = new.shape[-1] == want and (all(s[-1:] == core for s in shapes) if e[2] == "P" else shapes[0] == bsh + core)
            except Exception:  # noqa: BLE001
                ok = False
            if not ok:
                ev["sh"] = False
                break
            ev["x"] = enc(np.asarray(x))
            ev["rows"] = [dict(i=enc(a), o=enc(b)) for a, b in zip(cur, new)]
            ev["outs"] = ["o"]
            cur, w.val = new, (tuple(res) if e[2] == "P" else res)
            if e in ("Z>Zp", "Z>Zc"):
                w.z = w.z + 0.3
        R.add(sid, *evs)
