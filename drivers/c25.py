import numpy as np

import gftool as gt
from gftool import beb, cpa, fourier, hermpade, lattice, linalg, linearprediction as lp, matrix, pade, polepade
from gftool.basis import pole
from registry import BETA, T, hilbert
from vf import attempt

TT = np.linspace(0, 4, 21)


def finite(x):
    if isinstance(x, (tuple, list)):
        return all(finite(y) for y in x)
    if hasattr(x, "poles"):
        return finite(x.poles) and finite(x.residues)
    if hasattr(x, "coef"):
        return finite(x.coef)
    if hasattr(x, "numer"):
        return finite(x.numer) and finite(x.denom)
    if x is None or callable(x) or isinstance(x, pade.KindSelector) or hasattr(x, "eval"):
        return True
    return bool(np.all(np.isfinite(np.asarray(x, dtype=complex))))


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 4)):
            sid = "/".join(str(sc[k]) for k in sorted(sc)) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            rng = R.rng(sid)
            f = globals()["do_" + sc["op"].replace("-", "_")](sc, rng)
            val, exc = attempt(f)
            R.add(sid, dict(op=sc["op"], exc=exc, finite=True if exc else finite(val)), sc=sc)


def cplx(rng, sh):
    return rng.normal(size=sh) + 1j*rng.normal(size=sh)


def do_dimer_kind(sc, rng):
    return lambda: gt.hubbard_dimer_gf_z(cplx(rng, 3), 0.7, 1.2, kind=sc["kind"])


def do_tau_range(sc, rng):
    tau = {"zero": 0., "inside": rng.uniform(0, BETA), "beta": BETA, "below": -0.1, "above": BETA + 0.1,
           "slightly-above": BETA*(1 + 1e-12), "one-bad": np.array([0., 1.2, BETA*1.5, 0.3])}[sc["at"]]
    if rng.uniform() < 0.5 and np.ndim(tau) == 0:
        tau = np.array([0.3, tau])
    p, w = rng.uniform(0.2, 2, 3), rng.uniform(0.2, 2, 3)
    return {"pole_gf_tau": lambda: gt.pole_gf_tau(tau, p, w, BETA), "pole_gf_tau_b": lambda: gt.pole_gf_tau_b(tau, p, w, BETA),
            "PoleGf.eval_tau": lambda: pole.PoleGf(p, w).eval_tau(tau, BETA)}[sc["fn"]]


def do_bose_poles(sc, rng):
    p = rng.uniform(0.2, 2, 3)
    k = rng.integers(3)
    if sc["poles"] == "tiny":
        p[k] = 1e-6
    elif sc["poles"] == "zero":
        p[:] = 0
    elif sc["poles"] == "negative":
        p = -p
    elif sc["poles"] == "one-negative":
        p[k] = -0.3
    elif sc["poles"] == "one-zero":
        p[k] = 0
    elif sc["poles"] == "complex-positive":
        p = p + 0.1j
    elif sc["poles"] == "complex-negative":
        p = p + 0.1j
        p[k] = -p[k]
    return lambda: gt.pole_gf_tau_b(np.linspace(0, BETA, 5), p, np.ones(3), BETA)


def do_dos_moment(sc, rng):
    return lambda: getattr(lattice, sc["lat"]).dos_moment(sc["m"], 1.3)


def do_companion(sc, rng):
    a = cplx(rng, (() if sc["batch"] == "none" or sc["n"] < 2 else (3,)) + (sc["n"],))
    if sc["n"]:
        a[..., 0] = {"one": 1, "zero": a[..., 0], "small": 1e-8}[sc["lead"]]
        if sc["lead"] == "zero":
            if a.ndim == 1:
                a[0] = 0
            else:
                a[rng.integers(3), 0] = 0
    return lambda: lp.companion(a)


def do_pcoeff_covar(sc, rng):
    return lambda: lp.pcoeff_covar(cplx(rng, sc["n"]), sc["order"])[0]


def do_predict(sc, rng):
    x, a = cplx(rng, 8), 0.3*cplx(rng, 3)
    return lambda: lp.predict(x, a, sc["num"], stable=sc["stable"])


def do_decompose(sc, rng):
    a = cplx(rng, (2, 3, 3))
    sym = sc["fn"] == "sym"
    a = a + (a if sym else a.conj()).swapaxes(-1, -2)
    if sc["asym"] == "tiny":
        a[0, 0, 1] += 1e-12
    elif sc["asym"] == "large":
        a[:, 0, 1] += 1e-3
    elif sc["asym"] == "one-of-batch":
        a[1, 2, 0] += 0.1
    elif sc["asym"] == "imaginary":
        a[0, 2, 1] += 0.1j
    if sc["asym"] in ("none", "large") and rng.uniform() < 0.5:
        a = a[0]
    kw = {"default": {}, "true": dict(check=True), "false": dict(check=False)}[sc["check"]]
    f = matrix.decompose_sym if sym else matrix.decompose_her
    return lambda: tuple(f(a, **kw))


def do_taylor(sc, rng):
    an = rng.uniform(0.3, 2, sc["n"])
    p, q = sc["p"], sc["q"]
    return {"pade": lambda: hermpade.pade(an, p, q), "pade-fast": lambda: hermpade.pade(an, p, q, fast=True),
            "pade_lstsq": lambda: hermpade.pade_lstsq(an, p, q), "pader": lambda: hermpade.pader(an, p, q)}[sc["fn"]]


def do_taylor2(sc, rng):
    an = rng.uniform(0.3, 2, sc["n"])
    p, q, r = sc["p"], sc["q"], sc["r"]
    return {"hermite2": lambda: hermpade.hermite2(an, p, q, r), "hermite2_lstsq": lambda: hermpade.hermite2_lstsq(an, p, q, r),
            "Hermite2.from_taylor": lambda: hermpade.Hermite2.from_taylor(an, deg_p=p, deg_q=q, deg_r=r),
            "Hermite2.from_taylor_lstsq": lambda: hermpade.Hermite2.from_taylor_lstsq(an, deg_p=p, deg_q=q, deg_r=r)}[sc["fn"]]


def do_kind(sc, rng):
    return lambda: getattr(pade, sc["cls"])(sc["lo"], sc["hi"])


def do_coefficients(sc, rng):
    z = 1j*np.arange(1, sc["nz"] + 1)
    f = cplx(rng, (() if sc["batch"] == "none" else (2,)) + (sc["nf"],))
    return lambda: pade.coefficients(z, f)


def _avg(cls, z_in, coeff, valid):
    kind = pade.KindGf(1, 8)  # 4 approximants
    if cls == "Averager":
        return pade.Averager(z_in, coeff, valid_pades=valid, kind=kind)
    return pade.Mod_Averager(z_in, coeff, lambda z, p: p + z, valid_pades=valid, kind=kind)


def do_averager(sc, rng):
    z_in = 1j*np.arange(1, 9)
    c = cplx(rng, ((2,) if "batch" in sc["valid"] else ()) + (8,))
    n = len(pade.KindGf(1, 8))
    valid = {"all": np.ones(n, bool), "one": np.arange(n) == 1, "none": np.zeros(n, bool), "int": np.ones(n, int), "float": np.ones(n), "object": np.array([True]*n, dtype=object),
             "batch": np.ones((n, 2), bool), "batch-one-none": np.stack([np.ones(n, bool), np.zeros(n, bool)], axis=-1)}[sc["valid"]]
    if sc["valid"] in ("all", "none", "int", "one") and rng.uniform() < 0.5:
        valid = valid.tolist()
    return lambda: _avg(sc["cls"], z_in, c, valid)(np.array([0.3 + 0.1j, 0.2j])).x


def do_nan_coeff(sc, rng):
    z_in = 1j*np.arange(1, 9)
    c = cplx(rng, ((2,) if sc["batch"] == "vec" else ()) + (8,))
    n = len(pade.KindGf(1, 8))
    if sc["nan"] != "no":   # in all or one element of the batch, in all or only some of the approximants
        c[(1 if "one" in sc["nan"] and sc["batch"] == "vec" else ..., 5 if "late" in sc["nan"] else 1)] = np.nan
    valid = np.ones((n,) + c.shape[:-1], bool)
    return lambda: _avg(sc["cls"], z_in, c, valid)(np.array([0.3 + 0.1j, 0.2j])).x


def do_no_valid(sc, rng):
    z_in = 1j*np.arange(1, 9)
    f = 0.6/(z_in - 0.3) + 0.4/(z_in + 1.1) + 1e-3*cplx(rng, 8)
    thr = float(sc["threshold"])
    zo = np.array([0.3 + 0.1j, 0.2j])
    kind = pade.KindGf(1, 8)
    if sc["fn"] == "avg_no_neg_imag":
        return lambda: pade.avg_no_neg_imag(zo, z_in, fct_z=f, threshold=thr, kind=kind).x
    if sc["fn"] == "averaged":
        return lambda: pade.averaged(zo, z_in, fct_z=f, filter_valid=pade.FilterNegImag(thr), kind=kind).x
    return lambda: pade.averaged(zo, z_in, fct_z=f, filter_valid=[pade.FilterNegImag(np.inf), pade.FilterNegImag(thr)], kind=kind).x


def do_filter(sc, rng):
    a = None if sc["abs"] == "none" else int(sc["abs"])
    r = None if sc["rel"] == "none" else float(sc["rel"])
    return lambda: getattr(pade, sc["cls"])(abs_num=a, rel_num=r)


def do_coordination(sc, rng):
    z = int(sc["z"])
    if sc["fn"] == "gf_z":
        return lambda: lattice.bethez.gf_z(cplx(rng, 3), 1.2, z)
    return lambda: lattice.bethez.dos(rng.uniform(-1, 1, 3), 1.2, z)


def do_tt2z(sc, rng):
    tt = {"pos": TT, "neg": -TT, "mixed": TT - 1}[sc["t"]]
    im = {"up": 0.3, "down": -0.3, "axis": 0, "mixed": np.array([0.3, -0.3, 0.2])}[sc["z"]]
    z = rng.uniform(-1, 1, 3) + 1j*im
    kw = {"tt2z": {}, "tt2z-trapz": dict(laplace=fourier.tt2z_trapz), "tt2z-simps": dict(laplace=fourier.tt2z_simps), "tt2z-pade": dict(laplace=fourier.tt2z_pade)}[sc["fn"]]
    g = -1j*np.exp(-1j*tt*0.3 - 0.5*abs(tt))
    return lambda: fourier.tt2z(tt, g, z, **kw)


def do_equidistant(sc, rng):
    tt = TT.copy()
    if sc["grid"] == "one-off":
        tt[rng.integers(1, 20)] += 0.02
    elif sc["grid"] == "quadratic":
        tt = TT**2/4
    g = -1j*np.exp(-1j*tt*0.3 - 0.5*tt) - 0.3j*np.exp(-1j*tt*1.3 - 0.4*tt)
    z = rng.uniform(-1, 1, 3) + 0.3j
    kw = {} if sc["quad"] == "default" or sc["fn"] == "tt2z_lin" else dict(quad=sc["quad"])
    return lambda: getattr(fourier, sc["fn"])(tt, g, z, **kw)


def do_over_constrained(sc, rng):
    n, m = sc["poles"], sc["moments"]
    kw = dict(moments=rng.uniform(0.2, 1, m))
    if sc["occ"] == "yes":
        kw["occ"] = 0.3
    z, tau = 1j*np.linspace(0.5, 5, 12), np.linspace(0, BETA, 12)
    g, gt_ = 1/(z - 0.3), -rng.uniform(0.2, 0.6, 12)
    return {"gf_from_z": lambda: pole.gf_from_z(z, g, n, **kw), "PoleFct.from_z": lambda: pole.PoleFct.from_z(z, g, n, **kw),
            "gf_from_tau": lambda: pole.gf_from_tau(gt_, n, BETA, **kw), "PoleGf.from_tau": lambda: pole.PoleGf.from_tau(gt_, n, BETA, **kw),
            "residues_ols": lambda: polepade.residues_ols(z, g, rng.uniform(-1, 1, n), **kw)[0]}[sc["fn"]]


def do_n_poles0(sc, rng):
    z = 1j*np.linspace(0.3, 3, sc["nz"])
    g = 0.6/(z - 0.7 + 0.2j) + 0.4/(z + 0.9 + 0.1j) + (0.5 if sc["degree"] == 0 else 0)
    return lambda: polepade.number_poles(z, g, degree=sc["degree"], n_poles0=sc["n0"])


def do_continuation_degree(sc, rng):
    z = 1j*np.linspace(0.3, 3, 30)
    g = {0: 0.5}.get(sc["degree"], 0) + 0.6/(z - 0.7 + 0.2j) + 0.4/(z + 0.9 + 0.1j)
    if sc["degree"] == -2:
        g = 1/(z - 0.7 + 0.2j)/(z + 0.9 + 0.1j)
    return lambda: polepade.continuation(z, g, degree=sc["degree"]).poles


def do_not_converged(sc, rng):
    z = np.linspace(-1, 1, 6) + 0.2j
    e, c = np.array([-1.2, 1.4]), np.array([0.4, 0.6])
    kw = dict(options=dict(maxiter=1)) if sc["maxiter"] == "1" else {}
    iw = gt.matsubara_frequencies(range(16), 4.)
    return {"cpa.solve_root": lambda: cpa.solve_root(z, e, c, hilbert, **kw),
            "cpa.solve_root-free": lambda: cpa.solve_root(z + 0.8j, e, c, hilbert, restricted=False, **kw),
            "cpa.solve_fxdocc_root": lambda: tuple(cpa.solve_fxdocc_root(iw, 0.5*e, c, hilbert, 4., occ=0.4, **kw)),
            "beb.solve_root": lambda: beb.solve_root(z + 0.5j, 0.5*e, c, T, hilbert, **kw)}[sc["fn"]]


def do_no_bracket(sc, rng):
    x = rng.uniform(-3, 3)
    f = {"always-positive": lambda mu: 0.3 + 0.1*np.tanh(mu), "always-negative": lambda mu: -0.3 + 0.1*np.tanh(mu), "root": lambda mu: np.tanh(mu - x), "zero-at-start": lambda mu: np.tanh(mu)}[sc["f"]]
    return lambda: gt.chemical_potential(f)


def do_density_total(sc, rng):
    n = sc["ndim"]
    iw = gt.matsubara_frequencies(range(50), BETA)
    g = np.broadcast_to(1/(iw - 0.2) + 1/(iw + 0.5), (2,)*(n - 1) + (50,)).copy()
    return lambda: tuple(gt.density(g, np.array([-0.2, 0.5]), BETA, total=True))


def do_frequency_index(sc, rng):
    n = {"int": np.arange(5), "int-scalar": 3, "int32": np.arange(4, dtype=np.int32), "uint8": np.arange(4, dtype=np.uint8), "range": range(3), "float": np.arange(3.), "float-scalar": 2.0,
         "complex": np.arange(3)*1j, "string": ["a", "b"]}[sc["dtype"]]
    return lambda: getattr(gt, sc["fn"])(n, BETA)


def do_fix_qr(sc, rng):
    an = rng.uniform(0.3, 2, 12)
    return lambda: hermpade.hermite2_lstsq(an, p_deg=2, q_deg=3, r_deg=2, fix_qr=sc["fix"])


def do_orth_compl(sc, rng):
    return lambda: linalg.orth_compl(rng.normal(size=(sc["n"], sc["m"])))
