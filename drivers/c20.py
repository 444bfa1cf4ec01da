import numpy as np
from gftool import hermpade as H
from vf import enc

POLY = np.polynomial.Polynomial
FROMROOTS = lambda r: POLY(np.polynomial.polynomial.polyfromroots(r))
PADE = {"pade": H.pade, "pade-fast": lambda *a: H.pade(*a, fast=True), "pade_lstsq": H.pade_lstsq, "pader": H.pader}


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 6)):
            sid = "/".join(str(sc[k]) for k in sorted(sc)) + f"/{rep}"
            if R.only is not None and sid != R.only:
                continue
            if rep and (sc["op"] == "reject" or sc.get("series") == "zero"):
                continue
            {"pade": pade, "pade-fast": pade, "pade_lstsq": pade, "pader": pade, "rational": rational, "hermite2": herm, "hermite2_lstsq": herm,
             "branches": branches, "eval": branches, "algebraic": algebraic, "reject": reject}[sc["op"]](R, sc, sid, R.rng(sid))


def series(kind, rng, n):
    k = np.arange(n)
    if kind == "real":
        return rng.normal(size=n)
    if kind == "complex":
        return rng.normal(size=n) + 1j*rng.normal(size=n)
    if kind == "int":
        return rng.integers(-9, 10, n)
    if kind == "leading":
        a = rng.normal(size=n)
        a[:rng.integers(0, 3)] = 0
        return a
    if kind == "poly":
        a = np.zeros(n)
        a[:2] = rng.normal(size=a[:2].size)
        return a
    if kind == "rational":
        return 0.7*(-0.8)**k + 0.4*0.5**k
    if kind == "sqrt":
        from scipy.special import binom
        c = rng.uniform(0.3, 1)
        return binom(0.5, k)*c**k + np.where(k < 2, rng.normal(size=n), 0)
    return np.zeros(n)


def coefs(r):
    return dict(p=r.numer.coef, q=r.denom.coef)


def pade(R, sc, sid, rng):
    n, m = sc["num"], sc["den"]
    a = series(sc["series"], rng, n + m + 1 + sc["extra"])
    arg = a.tolist() if rng.uniform() < 0.3 else a
    # Levinson recursion is not stable for every matrix; singular systems are not claimed for it
    fast = sc["op"] == "pade-fast"
    if fast and sc["series"] not in ("real", "complex"):
        return
    R.one(sid, sc["op"], lambda: PADE[sc["op"]](arg, n, m), dict(a=a), core=1, pick=coefs, num=n, den=m, loose=10000 if fast else 1)


def points(kind, rng, scale=1.0, cplx=True):
    sh = {"scalar": (), "0d": (), "array": (4,), "2d": (2, 3), "real": (5,)}[kind]
    x = rng.uniform(-1, 1, sh)*scale
    if kind != "real" and cplx:
        x = x + 1j*rng.uniform(-1, 1, sh)*scale
    if kind == "0d":
        return np.asarray(x)
    return x[()] if sh == () else np.asarray(x)


def flat(x):
    return np.asarray(x).reshape(-1)


def rational(R, sc, sid, rng):
    n0, d0 = sc["n0"], sc["d0"]
    num = FROMROOTS(rng.uniform(0.5, 2, n0)*rng.choice([-1, 1], n0))*rng.uniform(0.5, 1)
    den = FROMROOTS((1.2 + np.arange(d0)*0.5 + rng.uniform(0, .3, d0))*rng.choice([-1, 1], d0))
    den = den/den(0)
    n, m = n0 + sc["en"], d0 + sc["ed"]
    a = []
    for k in range(n + m + 1):
        s = num.coef[k] if k <= n0 else 0.0
        a.append((s - sum(den.coef[j]*a[k-j] for j in range(1, min(k, d0) + 1)))/den.coef[0])
    a = np.array(a)
    x = points(sc["x"], rng, 0.5)
    f = PADE[sc["via"]]

    def pick(r):
        return dict(p=r.numer.coef, q=r.denom.coef, o=flat(r.eval(x)), shape=np.asarray(np.shape(r.eval(x)) == np.shape(x))[np.newaxis])
    ev = R.ev("rational", lambda: f(a, n, m), [dict(num=num.coef, den=den.coef, x=flat(x))], (), core=1, pick=pick, via=sc["via"], n0=n0, d0=d0, en=sc["en"], ed=sc["ed"])
    check_shape(ev)
    R.add(sid, ev)


def check_shape(ev):
    for r in ev["rows"]:
        if r.pop("shape")[0] != "1":
            ev["sh"] = False
    if ev.get("outs"):
        ev["outs"] = [k for k in ev["outs"] if k != "shape"]


def herm(R, sc, sid, rng):
    p, q, r = sc["p"], sc["q"], sc["r"]
    if (sc["op"] == "hermite2" and sc["fix"] != "none") or (sc["op"] == "hermite2" and sc["series"] == "zero"):
        return
    a = series(sc["series"], rng, p + q + r + 2 + sc["extra"])
    fix = {"none": None, "first": 0, "last": q + r + 1, "-1": -1, "-2": -2}[sc["fix"]]
    arg = a.tolist() if rng.uniform() < 0.3 else a
    f = (lambda: H.hermite2(arg, p, q, r)) if sc["op"] == "hermite2" else (lambda: H.hermite2_lstsq(arg, p, q, r, fix_qr=fix))
    R.one(sid, sc["op"], f, dict(a=a), core=1, pick=lambda v: dict(zip("pqr", (v[0].coef, v[1].coef, v[2].coef))), pd=p, qd=q, rd=r, fix=0 if fix is None else fix % (q + r + 2) + 1, nocorrupt=int(sc["series"] == "zero" or sc["op"] == "hermite2_lstsq"))


def obj(sc, rng):
    p, q, r = sc["p"], sc["q"], sc["r"]
    a = series(sc["series"], rng, p + q + r + 2)
    if sc["via"] == "taylor":
        return H.Hermite2.from_taylor(a, p, q, r)
    if sc["via"] == "lstsq":
        return H.Hermite2.from_taylor_lstsq(a, p, q, r)
    g = (lambda k: rng.normal(size=k) + 1j*rng.normal(size=k)) if sc["series"] == "complex" else (lambda k: rng.normal(size=k))
    return H.Hermite2(p=POLY(g(p + 1)), q=POLY(g(q + 1)), r=POLY(g(r + 1)), pade=H.RatPol(POLY(g(3)), POLY(g(2))))


def branches(R, sc, sid, rng):
    x = points(sc["x"], rng, 1.5)

    def call():
        h = obj(sc, rng)
        u, v = h.eval_branches(x)
        o = h.eval(x) if sc["op"] == "eval" else u
        return dict(p=h.p.coef, q=h.q.coef, r=h.r.coef, plus=flat(u), minus=flat(v), o=flat(o), pn=h.pade.numer.coef, pd=h.pade.denom.coef,
                    shape=np.asarray(np.shape(u) == np.shape(x) and np.shape(v) == np.shape(x) and np.shape(o) == np.shape(x))[np.newaxis])
    ev = R.ev(sc["op"], call, [dict(x=flat(x))], (), core=1, pick=lambda d: d, nocorrupt=1)
    check_shape(ev)
    R.add(sid, ev)


def algebraic(R, sc, sid, rng):
    da, db = sc["da"], sc["db"]
    c = rng.uniform(0.4, 0.9)
    ca, cb = rng.normal(size=da + 1), rng.normal(size=db + 1)
    if db == 1:
        cb = np.array([1.0, 0.3])*rng.uniform(1, 2)
    else:
        cb = np.array([rng.uniform(1, 2)])
    p, q, r = max(2*da, 2*db + 1) + sc["ep"], da + sc["eq"], sc["er"]
    n = p + q + r + 2
    from scipy.special import binom
    k = np.arange(n)
    s = binom(0.5, k)*c**k
    a = np.convolve(s, cb)[:n]
    a[:da+1] += ca
    x = points(sc["x"], rng, 0.25)
    f = H.Hermite2.from_taylor if sc["via"] == "taylor" else H.Hermite2.from_taylor_lstsq
    R.one(sid, "algebraic", lambda: flat(f(a, p, q, r).eval(x)), dict(c=c, ca=ca, cb=cb, x=flat(x)), core=1)


def reject(R, sc, sid, rng):
    a, b, c, miss = sc["a"], sc["b"], sc["c"], sc["missing"]
    if sc["via"].startswith("hermite2"):
        an = rng.normal(size=max(a + b + c + 2 - miss, 0))
        f = lambda: getattr(H, sc["via"])(an, a, b, c)
        if c == 0 and a + b == 0 and miss == 2:
            return
    else:
        if c:
            return
        an = rng.normal(size=max(a + b + 1 - miss, 0))
        f = lambda: PADE[sc["via"]](an, a, b)
    R.error(sid, "reject", f, missing=miss)
