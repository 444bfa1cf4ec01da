"""Public functions of gftool with generators for their arguments; the signatures are in spec/Catalog.tla."""
import functools

import numpy as np

import gftool as gt
from gftool import basis, beb, cpa, fourier, hermpade, lattice, linalg, linearprediction, matrix, pade, polepade, siam
from gftool.basis import pole

BETA = 3.7
D = 1.3


# generators: (rng, shape) -> array ----------------------------------------------------------
def _cut(shape):
    return shape


def zup(rng, sh):
    """complex numbers of the upper half plane, all magnitudes"""
    mag = rng.choice([0.05, 0.5, 1, 3, 30], sh)
    return mag*(rng.normal(size=sh)) + 1j*mag*10.**rng.uniform(-2.5, 0.3, sh)


def zany(rng, sh):
    z = zup(rng, sh)
    return np.where(rng.uniform(size=sh) < 0.4, z.conj(), z)


def zbig(rng, sh):
    return rng.normal(size=sh) + 1j*rng.uniform(0.3, 2, sh)


def real(rng, sh):
    return rng.normal(size=sh)


def pos(rng, sh):
    return rng.uniform(0.2, 2, sh)


def energy(rng, sh):
    """real energies inside and outside of the band, edges and centre included"""
    e = rng.uniform(-2.2, 2.2, sh)*D
    return np.where(rng.uniform(size=sh) < 0.15, rng.choice([0., 0.5, -0.5, 3.], sh), e)


def unit(rng, sh):
    return rng.uniform(0.02, 0.98, sh)


def tau(rng, sh):
    t = rng.uniform(0, BETA, sh)
    return np.where(rng.uniform(size=sh) < 0.2, rng.choice([0., BETA], sh), t)


def times(rng, sh):
    t = rng.uniform(-1, 8, sh)
    return np.where(rng.uniform(size=sh) < 0.2, 0., t)


def cplx(rng, sh):
    return rng.normal(size=sh) + 1j*rng.normal(size=sh)


def ints(rng, sh):
    return rng.integers(0, 6, sh)


def ints1(rng, sh):
    return rng.integers(1, 6, sh)


def nfreq(rng, sh):
    return rng.integers(-5, 9, sh)


def conc(rng, sh):
    c = rng.uniform(0.2, 1, sh)
    return c/c.sum(axis=-1, keepdims=True)


def herm(rng, sh):
    a = cplx(rng, sh)
    return a + a.conj().swapaxes(-1, -2)


def symm(rng, sh):
    a = cplx(rng, sh)
    return a + a.swapaxes(-1, -2)


def selfen(rng, sh):
    return 0.4*real(rng, sh) - 1j*rng.uniform(0.05, 0.6, sh)


def selfmat(rng, sh):
    n = sh[-1]
    return 0.2*symm(rng, sh) + np.eye(n)*(-0.8j)


def iws(rng, sh):
    return 1j*np.pi/BETA*(2*np.arange(sh[-1]) + 1)*rng.uniform(1, 1.2, sh[:-1] + (1,))*np.ones(sh)


def spread(rng, sh):
    """well separated real numbers along the last axis"""
    return np.linspace(-1.5, 1.5, sh[-1]) + rng.uniform(-0.2, 0.2, sh)


def tt0(rng, sh):
    return np.linspace(0, 4., sh[-1]) + np.zeros(sh)


def decay(rng, sh):
    t = np.linspace(0, 4., sh[-1])
    w, e = rng.uniform(0.3, 1, sh[:-1] + (1,)), rng.uniform(-2, 2, sh[:-1] + (1,))
    return -1j*w*np.exp(-1j*t*e - 0.7*t) - 0.4j*np.exp(-1j*t*(e + 1) - 0.4*t)


def signal(rng, sh):
    t = np.arange(sh[-1])
    w, e = rng.uniform(0.3, 1, sh[:-1] + (1,)), rng.uniform(0.5, 2, sh[:-1] + (1,))
    return w*np.exp(1j*t*e - 0.1*t) + 0.4*np.exp(-1j*t*(e + 0.3) - 0.05*t) + 0.05*cplx(rng, sh)


def rsignal(rng, sh):
    return signal(rng, sh).real


class Fn:
    def __init__(self, call, *gens, likes=(), rtol="1e-10", heavy=False):
        self.call, self.gens, self.likes, self.rtol, self.heavy = call, gens, likes, rtol, heavy


hilbert = functools.partial(lattice.bethe.hilbert_transform, half_bandwidth=D)
T = np.array([[1.0, 0.4], [0.4, 0.7]])
ZIN = 1j*np.pi/BETA*(2*np.arange(8) + 1)
TT = np.linspace(0, 4., 21)

FN = {}
for name in ("bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc", "lieb", "kagome"):
    lat = getattr(lattice, name)
    like = (0,) if name == "bethe" else ()
    FN[f"{name}.gf_z"] = Fn(lambda z, lat=lat: lat.gf_z(z, D), zany, likes=like)
    FN[f"{name}.hilbert_transform"] = Fn(lambda z, lat=lat: lat.hilbert_transform(z, D), zany, likes=like)
    FN[f"{name}.dos"] = Fn(lambda e, lat=lat: lat.dos(e, D), energy, likes=like)
FN["box.gf_z"] = Fn(lambda z: lattice.box.gf_z(z, D), zany, likes=(0,))
FN["box.dos"] = Fn(lambda e: lattice.box.dos(e, D), energy, likes=(0,))
FN["rectangular.gf_z"] = Fn(lambda z: lattice.rectangular.gf_z(z, D, 1.7), zany)
FN["rectangular.hilbert_transform"] = Fn(lambda z: lattice.rectangular.hilbert_transform(z, D, 1.7), zany)
FN["rectangular.dos"] = Fn(lambda e: lattice.rectangular.dos(e, D, 1.7), energy)
FN["bethez.gf_z"] = Fn(lambda z: lattice.bethez.gf_z(z, D, 5), zany)
FN["bethez.dos"] = Fn(lambda e: lattice.bethez.dos(e, D, 5), energy)
FN["bethe.gf_d1_z"] = Fn(lambda z: lattice.bethe.gf_d1_z(z, D), zany, likes=(0,))
FN["bethe.gf_d2_z"] = Fn(lambda z: lattice.bethe.gf_d2_z(z, D), zany, likes=(0,))
FN["bethe.gf_z_inv"] = Fn(lambda g: lattice.bethe.gf_z_inv(g, D), zany, likes=(0,))
FN["bethe.gf_ret_t"] = Fn(lambda t: lattice.bethe.gf_ret_t(t, D, center=0.3), times, likes=(0,))
FN["box.gf_ret_t"] = Fn(lambda t: lattice.box.gf_ret_t(t, D, center=0.3), times, likes=(0,))
FN["square.stress_trafo"] = Fn(lambda z: lattice.square.stress_trafo(z, D), zany, rtol="1e-6")

FN["fermi_fct"] = Fn(lambda e: gt.fermi_fct(e, BETA), real)
FN["fermi_fct-complex"] = Fn(lambda e: gt.fermi_fct(e, BETA), cplx)
FN["fermi_fct_d1"] = Fn(lambda e: gt.fermi_fct_d1(e, BETA), real)
FN["fermi_fct_inv"] = Fn(lambda e: gt.fermi_fct_inv(e, BETA), unit)
FN["bose_fct"] = Fn(lambda e: gt.bose_fct(e, BETA), real, likes=(0,))
FN["matsubara_frequencies"] = Fn(lambda n: gt.matsubara_frequencies(n, BETA), nfreq, likes=(0,))
FN["matsubara_frequencies_b"] = Fn(lambda n: gt.matsubara_frequencies_b(n, BETA), nfreq, likes=(0,))

FN["pole_gf_z"] = Fn(gt.pole_gf_z, zany, real, real, likes=(0, 1, 2))
FN["pole_gf_d1_z"] = Fn(gt.pole_gf_d1_z, zany, real, real, likes=(0, 1, 2))
FN["pole_gf_ret_t"] = Fn(gt.pole_gf_ret_t, times, real, real, likes=(0, 1, 2))
FN["pole_gf_tau"] = Fn(lambda t, p, w: gt.pole_gf_tau(t, p, w, BETA), tau, real, real, likes=(0, 1, 2))
FN["pole_gf_tau_b"] = Fn(lambda t, p, w: gt.pole_gf_tau_b(t, p, w, BETA), tau, pos, real, likes=(0, 1, 2))
FN["pole_gf_moments"] = Fn(gt.pole_gf_moments, real, real, ints, likes=(2,))
FN["surface_gf_zeps"] = Fn(lambda z, e: gt.surface_gf_zeps(z, e, 0.8), zup, real)
FN["hubbard_dimer_gf_z"] = Fn(lambda z: gt.hubbard_dimer_gf_z(z, 0.8, 1.7), zany)
FN["hubbard_dimer_gf_z-"] = Fn(lambda z: gt.hubbard_dimer_gf_z(z, 0.8, 1.7, kind="-"), zany)
FN["hubbard_I_self_z"] = Fn(gt.hubbard_I_self_z, zany, pos, unit, likes=(0, 1, 2))
FN["density_iw"] = Fn(lambda iw, g, w, m: gt.density_iw(iw, g, BETA, weights=w, moments=m), iws, cplx, pos, real, likes=(3,))
FN["density_iw-fit"] = Fn(lambda iw, g, w, m: gt.density_iw(iw, g, BETA, weights=w, moments=m, n_fit=2), iws, cplx, pos, real, likes=(3,), rtol="1e-9")
FN["density_error"] = Fn(lambda d: gt.density_error(d, ZIN), cplx)
FN["density_error-clean"] = Fn(lambda d: gt.density_error(d, ZIN, noisy=False), cplx)
FN["density_error2"] = Fn(lambda d: gt.density_error2(d, ZIN), cplx)


def _pz(f):
    return f.poles, f.residues


def _wide(f):
    return np.broadcast_arrays(f.poles, f.residues)


FN["gf_from_moments"] = Fn(lambda m: _wide(pole.gf_from_moments(m)), real, likes=(0,), rtol="1e-11")
FN["gf_from_moments-width"] = Fn(lambda m, w: _wide(pole.gf_from_moments(m, width=w)), real, pos, likes=(0, 1), rtol="1e-10")
FN["gf_from_moments-auto"] = Fn(lambda m: _wide(pole.gf_from_moments(m, width=None)), pos, likes=(0,), rtol="1e-9")
FN["gf_from_z"] = Fn(lambda z, g: pole.gf_from_z(z, g, n_pole=4).residues, iws, cplx, rtol="1e-9")
FN["gf_from_z-moments"] = Fn(lambda z, g, m, w: pole.gf_from_z(z, g, n_pole=4, moments=m, weight=w).residues, iws, cplx, pos, pos, likes=(2,), rtol="1e-8")
FN["gf_from_tau"] = Fn(lambda g: pole.gf_from_tau(g, n_pole=4, beta=BETA).residues, real, rtol="1e-8")
FN["gf_from_tau-moments"] = Fn(lambda g, m: pole.gf_from_tau(g, n_pole=4, beta=BETA, moments=m).residues, real, pos, likes=(1,), rtol="1e-8")
FN["PoleFct.eval_z"] = Fn(lambda z, p, w: pole.PoleFct(p, w).eval_z(z), zany, real, cplx)
FN["PoleFct.moments"] = Fn(lambda p, w, o: pole.PoleFct(p, w).moments(o), real, cplx, ints)
FN["PoleGf.eval_tau"] = Fn(lambda t, p, w: pole.PoleGf(p, w).eval_tau(t, BETA), tau, real, cplx)
FN["PoleGf.eval_ret_t"] = Fn(lambda t, p, w: pole.PoleGf(p, w).eval_ret_t(t), times, real, cplx)
FN["PoleGf.occ"] = Fn(lambda p, w: pole.PoleGf(p, w).occ(BETA), real, real)
FN["ZeroPole.eval"] = Fn(lambda z, n, p, a: basis.ZeroPole(n, p, a).eval(z), zany, cplx, cplx, cplx)
FN["ZeroPole.reciprocal"] = Fn(lambda z, n, p, a: basis.ZeroPole(n, p, a).reciprocal(z), zany, cplx, cplx, cplx)
FN["PadeApprox.eval_polefct"] = Fn(lambda z, n, p, r, a: polepade.PadeApprox(n, p, r, a).eval_polefct(z), zany, cplx, cplx, cplx, cplx)
FN["PadeApprox.eval_zeropole"] = Fn(lambda z, n, p, r, a: polepade.PadeApprox(n, p, r, a).eval_zeropole(z), zany, cplx, cplx, cplx, cplx)

FN["iw2tau_dft"] = Fn(lambda g: fourier.iw2tau_dft(g, BETA), cplx)
FN["iw2tau_dft_soft"] = Fn(lambda g: fourier.iw2tau_dft_soft(g, BETA), cplx)
FN["iw2tau"] = Fn(lambda g, m: fourier.iw2tau(g, BETA, moments=m), cplx, pos, likes=(1,))
FN["iw2tau-fit"] = Fn(lambda g, m: fourier.iw2tau(g, BETA, moments=m, n_fit=2), cplx, pos, likes=(1,), rtol="1e-8")
FN["tau2iv_dft"] = Fn(lambda g: fourier.tau2iv_dft(g, BETA), real)
FN["tau2iv_ft_lin"] = Fn(lambda g: fourier.tau2iv_ft_lin(g, BETA), real)
FN["tau2iv"] = Fn(lambda g: fourier.tau2iv(g, BETA), real)
FN["tau2iw_dft"] = Fn(lambda g: fourier.tau2iw_dft(g, BETA), real)
FN["tau2iw_ft_lin"] = Fn(lambda g: fourier.tau2iw_ft_lin(g, BETA), real)
FN["tau2iw"] = Fn(lambda g: fourier.tau2iw(g, BETA), real)
FN["tau2iw-moments"] = Fn(lambda g, m: fourier.tau2iw(g, BETA, moments=m), real, pos, likes=(1,), rtol="1e-8")
FN["tau2iw-poles"] = Fn(lambda g: fourier.tau2iw(g, BETA, n_pole=3), real, rtol="1e-8")
FN["tt2z_trapz"] = Fn(lambda g, z: fourier.tt2z_trapz(TT, g, z), decay, zbig)
FN["tt2z_simps"] = Fn(lambda g, z: fourier.tt2z_simps(TT, g, z), decay, zbig)
FN["tt2z_lin"] = Fn(lambda g, z: fourier.tt2z_lin(TT, g, z), decay, zbig)
FN["tt2z"] = Fn(lambda g, z: fourier.tt2z(TT, g, z), decay, zbig)
FN["tt2z_pade"] = Fn(lambda g, z: fourier.tt2z_pade(TT, g, z), decay, zbig, rtol="1e-6")
FN["tt2z_herm2"] = Fn(lambda g, z: fourier.tt2z_herm2(TT, g, z), decay, zbig, rtol="1e-6")
FN["tt2z_lpz"] = Fn(lambda g, z: fourier.tt2z_lpz(TT, g, z, order=4), decay, zbig, rtol="1e-8")

FN["decompose_mat"] = Fn(lambda a: (lambda d: (np.sort_complex(d.eig) if d.eig.size else d.eig, d.reconstruct()))(matrix.decompose_mat(a)), cplx, rtol="1e-9")
FN["decompose_sym"] = Fn(lambda a: (lambda d: (np.sort_complex(d.eig) if d.eig.size else d.eig, d.reconstruct()))(matrix.decompose_sym(a)), symm, rtol="1e-8")
FN["decompose_her"] = Fn(lambda a: (lambda d: (d.eig, d.s, d.reconstruct(), d.reconstruct(kind="diag")))(matrix.decompose_her(a)), herm, rtol="1e-10")
FN["Decomposition.from_gf"] = Fn(lambda a: (lambda d: (d.reconstruct(1/d.eig), d.reconstruct(1/d.eig, kind="diag")))(matrix.Decomposition.from_gf(a)), cplx, rtol="1e-7")
FN["Decomposition.from_hamiltonian"] = Fn(lambda a: (lambda d: (d.eig, d.reconstruct(d.eig**2)))(matrix.Decomposition.from_hamiltonian(a)), herm, rtol="1e-10")
FN["gf_2x2_z"] = Fn(matrix.gf_2x2_z, zbig, pos, real, real, likes=(0, 1, 2, 3), rtol="1e-9")
FN["gf_2x2_z-hilbert"] = Fn(lambda z, a, b, t: matrix.gf_2x2_z(z, a, b, t, hilbert_trafo=hilbert), zbig, pos, real, real, rtol="1e-9")

FN["siam.gf0_loc_z"] = Fn(siam.gf0_loc_z, zup, real, real, pos)
FN["siam.hybrid_z"] = Fn(siam.hybrid_z, zup, real, pos)
FN["siam.hamiltonian_matrix"] = Fn(siam.hamiltonian_matrix, real, real, cplx)
FN["siam.gf0_loc_ret_t"] = Fn(siam.gf0_loc_ret_t, times, real, real, cplx, rtol="1e-10")
FN["siam.gf0_loc_gr_t"] = Fn(lambda t, e, b, v: siam.gf0_loc_gr_t(t, e, b, v, BETA), times, real, real, cplx, rtol="1e-10")
FN["siam.gf0_loc_le_t"] = Fn(lambda t, e, b, v: siam.gf0_loc_le_t(t, e, b, v, BETA), times, real, real, cplx, rtol="1e-10")

FN["cpa.gf_cmpt_z"] = Fn(lambda z, s, e: cpa.gf_cmpt_z(z, s, e, hilbert), zbig, selfen, real, rtol="1e-10")
FN["cpa.self_root_eq"] = Fn(lambda s, z, e, c: cpa.self_root_eq(s, z, e, c, hilbert), selfen, zbig, real, conc, rtol="1e-9", likes=(1, 3))
FN["cpa.self_fxdpnt_eq"] = Fn(lambda s, z, e, c: cpa.self_fxdpnt_eq(s, z, e, c, hilbert), selfen, zbig, real, conc, rtol="1e-9", likes=(1, 3))
FN["cpa.solve_root"] = Fn(lambda z, e, c: cpa.solve_root(z, e, c, hilbert, restricted=False), zbig, unit, conc, rtol="1e-4", likes=(0, 2), heavy=True)
FN["beb.gf_loc_z"] = Fn(lambda z, s: beb.gf_loc_z(z, s, T, hilbert), zbig, selfmat, rtol="1e-9")
FN["beb.gf_loc_z-full"] = Fn(lambda z, s: beb.gf_loc_z(z, s, T, hilbert, diag=False), zbig, selfmat, rtol="1e-9")
FN["beb.self_root_eq"] = Fn(lambda s, z, e, c: beb.self_root_eq(s, z, e, c, beb.SpecDec(*matrix.decompose_her(T)), hilbert), selfmat, zbig, real, conc, rtol="1e-8")
FN["beb.solve_root"] = Fn(lambda z, e, c: beb.solve_root(z, e, c, T, hilbert, restricted=False), zbig, unit, conc, rtol="1e-4", heavy=True)

FN["companion"] = Fn(linearprediction.companion, cplx, likes=(0,))
FN["pcoeff_covar"] = Fn(lambda x: linearprediction.pcoeff_covar(x, 4), signal, rtol="1e-7")
FN["pcoeff_burg"] = Fn(lambda x: linearprediction.pcoeff_burg(x, 4), signal, rtol="1e-9")
FN["predict"] = Fn(lambda x, a: linearprediction.predict(x, a, 5), signal, cplx, rtol="1e-10")
FN["predict-stable"] = Fn(lambda x, a: linearprediction.predict(x, a, 5, stable=True), signal, cplx, rtol="1e-8")
FN["pade.coefficients"] = Fn(lambda f: pade.coefficients(ZIN, f), cplx, rtol="1e-8")
FN["pade.calc_iterator"] = Fn(lambda c: np.stack(list(pade.calc_iterator(np.array([0.1 + 0.2j, 0.5 + 0.3j, 1.0 + 0.1j]), ZIN, c)), axis=-1), cplx, rtol="1e-8")
FN["pade.averaged"] = Fn(lambda f: (lambda r: (r.x, r.err))(pade.averaged(np.array([0.1 + 0.2j, 0.5 + 0.3j]), ZIN, fct_z=f, kind=pade.KindGf(3, 8))), cplx, rtol="1e-7")
FN["orth_compl"] = Fn(lambda a: (lambda p: np.swapaxes(p, -1, -2).conj() @ p)(linalg.orth_compl(a)), cplx, rtol="1e-10")
FN["RatPol.eval"] = Fn(lambda z: basis.RatPol(np.polynomial.Polynomial([1., 2., 0.5]), np.polynomial.Polynomial([3., 1.])).eval(z), zany)
FN["Hermite2.eval"] = Fn(lambda z: HERM2.eval(z), unit, rtol="1e-10")
_c = [1.0]
for _k in range(12):
    _c.append(_c[-1]*(0.5 - _k)/(_k + 1)*(-0.6))
HERM2 = hermpade.Hermite2.from_taylor(np.array(_c), deg_p=2, deg_q=2, deg_r=2) if hasattr(hermpade.Hermite2, "from_taylor") else None
