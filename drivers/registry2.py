"""Further public functions, which are not vectorised or take other objects; used for the histories of C24."""
import mpmath
import numpy as np

import gftool as gt
from gftool import basis, beb, cpa, fourier, hermpade, lattice, linalg, linearprediction, matrix, pade, polepade, statistics
from gftool.basis import pole
from registry import BETA, D, FN, T, ZIN, Fn, conc, cplx, decay, energy, hilbert, herm, ints1, iws, pos, real, selfen, selfmat, unit, zany, zbig



def ints14(rng, sh):
    return rng.integers(1, 5, sh)


FX = dict(FN)
for name in ("bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc", "lieb", "kagome"):
    lat = getattr(lattice, name)
    FX[f"{name}.dos_mp"] = Fn(lambda e, lat=lat: lat.dos_mp(float(e), D), energy)
    FX[f"{name}.dos_moment"] = Fn(lambda m, lat=lat: lat.dos_moment(int(m), D), ints14)
FX["box.dos_moment"] = Fn(lambda m: lattice.box.dos_moment(int(m), D), ints14)
FX["sc.gf_z_mp"] = Fn(lambda z: lattice.sc.gf_z_mp(complex(z), D), zbig)
FX["pade_frequencies"] = Fn(lambda n: statistics.pade_frequencies(2*int(n), BETA), ints1)
FX["chemical_potential"] = Fn(lambda x: gt.chemical_potential(lambda mu: np.tanh(mu - x)), real, rtol="1e-6")


def lor(z):
    return 0.6/(z - 0.4 + 0.5j) + 0.4/(z + 0.9 + 0.3j)


def smooth(rng, sh):
    a = rng.uniform(0.5, 1.5, sh[:-1] + (1,))
    return a*lor(1j*(0.2 + np.arange(sh[-1])*0.25))


ZZ = 1j*(0.2 + np.arange(24)*0.25)
FX["continuation"] = Fn(lambda z, g: (lambda p: (p.zeros, p.poles, p.residues, p.amplitude))(polepade.continuation(z, g)), lambda rng, sh: ZZ.copy(), smooth, rtol="1e-4")
FX["continuation-moments"] = Fn(lambda z, g, m, w: (lambda p: (p.poles, p.residues))(polepade.continuation(z, g, moments=m, weight=w)), lambda rng, sh: ZZ.copy(), smooth, pos, pos, rtol="1e-4")
FX["polepade.poles"] = Fn(lambda z, g, w: polepade.poles(z, g, m=2, n=1, weight=w), lambda rng, sh: ZZ.copy(), smooth, pos, rtol="1e-6")
FX["polepade.zeros"] = Fn(lambda z, g, p, w: polepade.zeros(z, g, p, n=1, weight=w), lambda rng, sh: ZZ.copy(), smooth, cplx, pos, rtol="1e-6")
FX["polepade.asymptotic"] = Fn(lambda z, g, n, p, w: polepade.asymptotic(z, g, n, p, weight=w), lambda rng, sh: ZZ.copy(), smooth, cplx, cplx, pos, rtol="1e-8")
FX["polepade.residues_ols"] = Fn(lambda z, g, p, w, m: polepade.residues_ols(z, g, p, weight=w, moments=m), lambda rng, sh: ZZ.copy(), smooth, cplx, pos, pos, rtol="1e-8", likes=(4,))
FX["polepade.number_poles"] = Fn(lambda z, g, w: polepade.number_poles(z, g, weight=w), lambda rng, sh: ZZ.copy(), smooth, pos)
FX["izp2tau"] = Fn(lambda z, g, t, m: fourier.izp2tau(z, g, t, BETA, moments=m), iws, cplx, lambda rng, sh: np.linspace(0, BETA, sh[-1]), pos, rtol="1e-4", likes=(3,))
FX["tau2izp"] = Fn(lambda g, z, m, w: fourier.tau2izp(g, BETA, z, moments=m, weight=w), real, iws, pos, pos, rtol="1e-4", likes=(2,))
FX["density"] = Fn(lambda g, p: (lambda r: (r.x, r.err))(gt.density(g, p, BETA)), cplx, real, rtol="1e-9")
FX["density-matrix"] = Fn(lambda g, p: (lambda r: (r.x, r.err))(gt.density(g, p, BETA, matrix=True)), cplx, herm, rtol="1e-9")
FX["check_convergence"] = Fn(lambda g, p: gt.check_convergence(g, p, BETA), cplx, real, rtol="1e-8")
FX["lstsq_ec"] = Fn(linalg.lstsq_ec, real, real, real, real, rtol="1e-8")
FX["hermpade.pade"] = Fn(lambda a: (lambda p: (p.numer.coef, p.denom.coef))(hermpade.pade(a, 3, 3)), pos, likes=(0,), rtol="1e-6")
FX["hermpade.pade-fast"] = Fn(lambda a: (lambda p: (p.numer.coef, p.denom.coef))(hermpade.pade(a, 3, 3, fast=True)), pos, likes=(0,), rtol="1e-6")
FX["hermpade.pade_lstsq"] = Fn(lambda a: (lambda p: (p.numer.coef, p.denom.coef))(hermpade.pade_lstsq(a, 3, 2)), pos, likes=(0,), rtol="1e-6")
FX["hermpade.pader"] = Fn(lambda a: (lambda p: (p.numer.coef, p.denom.coef))(hermpade.pader(a, 3, 3)), pos, likes=(0,), rtol="1e-6")
FX["hermpade.hermite2"] = Fn(lambda a: tuple(p.coef for p in hermpade.hermite2(a, 2, 2, 2)), pos, likes=(0,), rtol="1e-6")
FX["hermpade.hermite2_lstsq"] = Fn(lambda a: tuple(p.coef for p in hermpade.hermite2_lstsq(a, 2, 2, 2)), pos, likes=(0,), rtol="1e-6")
FX["Hermite2.from_taylor"] = Fn(lambda a, z: hermpade.Hermite2.from_taylor(a, 2, 2, 2).eval(z), pos, unit, rtol="1e-5")


def sol(rng, sh):
    """Green's function data on the Matsubara frequencies ZIN"""
    a = rng.uniform(0.5, 1.5, sh[:-1] + (1,))
    return a*lor(ZIN) + 1e-4*cplx(rng, sh)


ZO = np.array([0.1 + 0.2j, 0.5 + 0.3j, -0.4 + 0.1j])
FX["avg_no_neg_imag"] = Fn(lambda zo, zi, f: tuple(pade.avg_no_neg_imag(zo, zi, fct_z=f, kind=pade.KindGf(2, 8), threshold=np.inf)), lambda rng, sh: ZO.copy(), lambda rng, sh: ZIN.copy(), sol, rtol="1e-5")
FX["averaged-variance"] = Fn(lambda zo, zi, f: tuple(pade.averaged(zo, zi, fct_z=f, kind=pade.KindSelf(2, 8), filter_valid=pade.FilterHighVariance(abs_num=1))), lambda rng, sh: ZO.copy(), lambda rng, sh: ZIN.copy(), sol, rtol="1e-5")
FX["averaged-coeff"] = Fn(lambda zo, zi, c: tuple(pade.averaged(zo, zi, coeff=c, kind=pade.KindGf(2, 8))), lambda rng, sh: ZO.copy(), lambda rng, sh: ZIN.copy(), cplx, rtol="1e-5")
FX["Mod_Averager"] = Fn(lambda zi, c, zo: tuple(pade.Mod_Averager(zi, c, lambda z, p: p + z, valid_pades=np.ones(3, bool), kind=pade.KindGf(2, 8))(zo)), lambda rng, sh: ZIN.copy(), cplx, lambda rng, sh: ZO.copy(), rtol="1e-5")
FX["apply_filter"] = Fn(lambda x: pade.apply_filter(pade.FilterNegImagNum(abs_num=2), pade.FilterNegImag(0.5), validity_iter=list(x)), lambda rng, sh: cplx(rng, sh) - 1j)

FX["cpa.solve_root-start"] = Fn(lambda z, e, c, s: cpa.solve_root(z, e, c, hilbert, self_cpa_z0=s), zbig, unit, conc, selfen, rtol="1e-4", heavy=True)
FX["cpa.solve_fxdocc_root"] = Fn(lambda iw, e, c: (lambda r: (r.self_cpa, r.mu))(cpa.solve_fxdocc_root(iw, e, c, hilbert, BETA, occ=0.4)), iws, unit, conc, rtol="1e-3", heavy=True)
FX["cpa.solve_fxdocc_root-start"] = Fn(lambda iw, e, c, s: (lambda r: (r.self_cpa, r.mu))(cpa.solve_fxdocc_root(iw, e, c, hilbert, BETA, occ=0.4, self_cpa_iw0=s)), iws, unit, conc, lambda rng, sh: selfen(rng, sh)*0.1, rtol="1e-3", heavy=True)
FX["beb.solve_root-start"] = Fn(lambda z, e, c, t, s: beb.solve_root(z, e, c, t, hilbert, self_beb_z0=s), zbig, unit, conc, lambda rng, sh: T.copy(), selfmat, rtol="1e-4", heavy=True)
FX["SpecDec.truncate"] = Fn(lambda t: (lambda d: d.truncate(0.3).reconstruct())(beb.SpecDec(*matrix.decompose_her(t))), herm, rtol="1e-9")
FX["SpecDec.partition"] = Fn(lambda u, e, v: beb.SpecDec(u, e, v).partition(return_sqrts=True), cplx, pos, cplx, rtol="1e-9")
FX["Decomposition.reconstruct"] = Fn(lambda u, e, v, x: (matrix.Decomposition(u, e, v).reconstruct(), matrix.Decomposition(u, e, v).reconstruct(x, kind="diag"), matrix.Decomposition(u, e, v).reconstruct(x)), cplx, cplx, cplx, cplx, rtol="1e-9")
FX["construct_gf"] = Fn(matrix.construct_gf, cplx, cplx, cplx, rtol="1e-9")
FX["ZeroPole.to_ratpol"] = Fn(lambda n, p: (lambda r: (r.numer.coef, r.denom.coef))(basis.ZeroPole(n, p, 1.4).to_ratpol()), cplx, cplx, rtol="1e-9")
FX["PoleGf.from_tau"] = Fn(lambda g, m, w: pole.PoleGf.from_tau(g, n_pole=4, beta=BETA, moments=m, occ=0.3, weight=w).residues, real, pos, pos, rtol="1e-8", likes=(1,))
FX["PoleFct.from_z"] = Fn(lambda z, g, m, w: pole.PoleFct.from_z(z, g, n_pole=4, moments=m, width=None, weight=w).residues, iws, cplx, pos, pos, rtol="1e-8", likes=(2,))
FX["mp-context"] = Fn(lambda e: (lattice.square.dos_mp(mpmath.mpf(float(e))), lattice.triangular.dos_mp(mpmath.mpf(float(e)))), lambda rng, sh: rng.uniform(0.1, 0.3, sh))
FX["tt2z-backend"] = Fn(lambda g, z: fourier.tt2z(np.linspace(0, 4., 21), g, z, laplace=fourier.tt2z_pade), decay, zbig, rtol="1e-6")
FX["zany-conj"] = Fn(lambda z: lattice.square.gf_z(z, D) - lattice.square.hilbert_transform(z, D), zany)


# the same functions where a scale is exactly one, such that steps may be skipped or results share memory with arguments
def _steps(rng, sh):
    return np.arange(float(sh[-1]))


def _unit_tau(rng, sh):
    return rng.uniform(0, 1, sh)


def _monic(rng, sh):
    a = cplx(rng, sh)
    a[..., 0] = 1
    return a


for name in ("trapz", "simps", "lin", "pade", "herm2", "lpz"):
    lap = getattr(fourier, f"tt2z_{name}")
    FX[f"unit-tt2z_{name}"] = Fn(lambda t, g, z, lap=lap: lap(t, g, z), _steps, decay, zbig, rtol="1e-6")
    FX[f"unit-tt2z-{name}"] = Fn(lambda t, g, z, lap=lap: fourier.tt2z(t, g, z, laplace=lap), _steps, decay, zbig, rtol="1e-6")
for name in ("bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc", "lieb", "kagome"):
    lat = getattr(lattice, name)
    FX[f"unit-{name}.gf_z"] = Fn(lambda z, lat=lat: lat.gf_z(z, half_bandwidth=1), zany)
    FX[f"unit-{name}.dos"] = Fn(lambda e, lat=lat: lat.dos(e, half_bandwidth=1), energy)
for name, g in (("fermi_fct", real), ("fermi_fct_d1", real), ("bose_fct", pos), ("fermi_fct_inv", unit), ("matsubara_frequencies", ints14), ("matsubara_frequencies_b", ints14)):
    FX[f"unit-{name}"] = Fn(lambda x, f=getattr(statistics, name): f(x, 1), g)
FX["unit-gf_tau"] = Fn(lambda t, p, w: pole.gf_tau(t, p, w, beta=1), _unit_tau, real, cplx)
FX["unit-pole_gf_tau_b"] = Fn(lambda t, p, w: gt.pole_gf_tau_b(t, p, w, beta=1), _unit_tau, pos, cplx)
FX["unit-gf_z"] = Fn(lambda z, p: pole.gf_z(z, p, 1), zany, real)
FX["unit-gf_d1_z"] = Fn(lambda z, p: pole.gf_d1_z(z, p, 1), zany, real)
FX["unit-moments"] = Fn(lambda p, w: pole.moments(p, w, 1), real, cplx)
FX["unit-iw2tau"] = Fn(lambda g, m: fourier.iw2tau(g, 1, moments=m), cplx, pos, likes=(1,))
FX["unit-iw2tau_dft"] = Fn(lambda g: fourier.iw2tau_dft(g, 1), cplx)
FX["unit-iw2tau_dft_soft"] = Fn(lambda g: fourier.iw2tau_dft_soft(g, 1), cplx)
for name in ("tau2iv_dft", "tau2iv_ft_lin", "tau2iv", "tau2iw_dft", "tau2iw_ft_lin", "tau2iw"):
    FX[f"unit-{name}"] = Fn(lambda g, f=getattr(fourier, name): f(g, 1), real)
FX["unit-density_iw"] = Fn(lambda z, g, m: gt.density_iw(z, g, 1, moments=m), iws, cplx, pos, likes=(2,))
FX["unit-predict"] = Fn(lambda x, a: linearprediction.predict(x, a, 0), cplx, cplx)
FX["unit-predict-stable"] = Fn(lambda x, a: linearprediction.predict(x, a, 0, stable=True), cplx, cplx, rtol="1e-8")
FX["unit-companion"] = Fn(linearprediction.companion, _monic, likes=(0,))
FX["unit-ratpol"] = Fn(lambda n, p: (lambda r: (r.numer.coef, r.denom.coef))(basis.ZeroPole(n, p).to_ratpol()), cplx, cplx, rtol="1e-9")
FX["unit-restrict"] = Fn(lambda z, s, e, c: cpa.restrict_self_root_eq(s.copy(), z, e, c, hilbert), zbig, selfen, real, conc, rtol="1e-9")
FX["unit-real-density"] = Fn(lambda g, p: gt.density(g, p, 1, return_err=False), cplx, real, rtol="1e-9")
