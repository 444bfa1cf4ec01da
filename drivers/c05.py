import numpy as np
from gftool import fourier as ft


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 4)):
            one(R, sc, rep)


def one(R, sc, rep):
    op, n, batch = sc["op"], sc["n"], sc["batch"]
    sid = "/".join(f"{k}={sc[k]}" for k in sorted(sc)) + f"/{rep}"
    rng = R.rng(sid)
    bs = {"none": (), "vec": (2,), "mat": (2, 3)}[batch]
    beta = {"one": float(rng.uniform(0.7, 3)), "large": float(rng.uniform(8, 60)), "int": int(rng.integers(1, 9))}[sc["beta"]]
    size = int(np.prod(bs, dtype=int))
    tau = np.linspace(0, beta, n)
    a, b = rng.uniform(-1, 1, bs + (1,)), rng.uniform(-1, 1, bs + (1,))
    g = {"random": lambda: rng.uniform(-1, 1, bs + (n,)),
         "constant": lambda: a*np.ones(n),
         "ramp": lambda: 100*a + 1e-6*b*tau/beta,   # hardly visible on a large offset
         "ripple": lambda: 100*a + 1e-5*rng.uniform(-1, 1, bs + (n,)),
         "linear": lambda: a + b*tau/beta,
         "pole": lambda: -np.exp(-tau*(1.1 + a))/(1 - np.exp(-beta*(1.1 + a)))}[sc["data"]]()
    rows = [dict(beta=beta, g=x) for x in g.reshape(size, n)]
    kw = {"dft": dict(fourier=ft.tau2iv_dft), "lin": dict(fourier=ft.tau2iv_ft_lin)}.get(sc.get("fourier"), {})
    R.batch(sid, op, lambda: getattr(ft, op)(g, beta=beta, **kw), rows, bs, core=((n - 1)//2 + 1,), fourier=sc.get("fourier", ""))
