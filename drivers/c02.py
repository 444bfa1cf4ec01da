import numpy as np
import gftool as gt


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 5)):
            one(R, sc, rep)


def one(R, sc, rep):
    op, shp, kind = sc["op"], sc["shape"], sc["kind"]
    sid = f"{op}/{shp}/{kind}/{sc['beta']}/{rep}"
    rng = R.rng(sid)
    xs = {"scalar": (), "zerod": (), "vec": (4,), "mat": (2, 3), "betavec": (2, 3), "empty": (0,)}[shp]
    bs = {"betavec": (3,)}.get(shp, ())
    beta = {"float": lambda: rng.uniform(0.3, 8, bs), "int": lambda: rng.integers(1, 6, bs), "large": lambda: 10**rng.uniform(1, 4, bs)}[sc["beta"]]()
    if bs == ():
        beta = beta.item() if hasattr(beta, "item") else beta
    bmin = np.min(beta)
    sgn = rng.choice([-1, 1], xs)
    if kind == "moderate":
        x = rng.uniform(-15, 15, xs)/bmin
    elif kind == "tiny":
        x = sgn*10**rng.uniform(-14, -3, xs)/bmin
    elif kind == "huge":
        x = sgn*10**rng.uniform(2.5, 5, xs)/bmin
    elif kind == "threshold":
        x = sgn*rng.choice([36.0, 699.0, 700.0, 701.0, 708.5, 709.5, 711.0, 720.0, 744.0, 746.0, 500.0, 350.0], xs)/bmin
    elif kind == "int":
        x = rng.integers(-4, 5, xs)
    elif kind == "uint":
        x = np.asarray(rng.integers(1, 6, xs)).astype(np.uint32)
    elif kind in ("int8", "uint8"):
        x = np.asarray(rng.integers(1 if kind == "uint8" else -100, 101, xs)).astype(kind)
        x = np.where(x == 0, np.array(7, kind), x)
    elif kind == "inf":
        x = sgn*np.inf
    elif kind == "negative":
        x = -rng.uniform(0.01, 40, xs)/bmin
    elif kind == "zero":
        x = 0.0*sgn
    elif kind == "float32":
        x = np.asarray(rng.uniform(-9, 9, xs)/np.float64(bmin)).astype(np.float32)
        beta = np.float32(beta) if bs == () else beta.astype(np.float32)
    elif kind == "complex":
        x = (rng.uniform(-9, 9, xs) + 1j*rng.uniform(-2, 2, xs))/bmin
    elif kind == "chuge":
        x = (sgn*10**rng.uniform(2, 4, xs) + 1j*rng.uniform(-2, 2, xs))/bmin
    elif kind == "cneg":
        x = (-rng.uniform(0.5, 9, xs) + 1j*rng.uniform(-20, 20, xs))/bmin
    elif kind == "near0":
        x = 10**rng.uniform(-200, -3, xs)
    elif kind == "near1":
        x = 1 - 10**rng.uniform(-12, -3, xs)
    elif kind == "half":
        x = 0.5 + 1e-6*rng.uniform(-1, 1, xs)
    if op == "fermi_fct_inv" and kind == "moderate":
        x = rng.uniform(0.01, 0.99, xs)
    x = np.asarray(x)
    if shp == "scalar":
        x = x.item() if kind not in ("float32", "uint", "int8", "uint8") else x[()]
    es = xs
    f = getattr(gt, op)
    rows = [dict(eps=a, beta=b) for a, b in zip(np.broadcast_to(x, es).reshape(-1), np.broadcast_to(beta, es).reshape(-1))]
    if kind == "float32":
        for r in rows:
            r["f32"] = 1
    if kind == "inf":
        rows = [dict(inf=int(np.sign(r["eps"].real))) for r in rows]
    R.batch(sid, op, lambda: f(x, beta) if rep % 2 == 0 else f(x, beta=beta), rows, es)
