import numpy as np
import gftool as gt


def run(R):
    for sc in R.scenarios:
        op = sc["op"]
        for rep in range(R.n(1, 4)):
            sid = "/".join(str(sc[k]) for k in sorted(sc)) + f"/{rep}"
            rng = R.rng(sid)
            beta = {"float": lambda: float(rng.uniform(0.5, 50)), "int": lambda: int(rng.integers(1, 20)),
                    "large": lambda: float(10**rng.uniform(2, 5) if op != "pade_frequencies" else 10**rng.uniform(5, 8)), "small": lambda: float(10**rng.uniform(-3, 0))}[sc["beta"]]()
            if op == "pade_frequencies":
                if rep and sc["num"] > 40:
                    continue
                R.one(sid, op, lambda: gt.pade_frequencies(sc["num"], beta=beta), dict(beta=beta),
                      core={"o": (sc["num"],), "resid": (sc["num"],)}, pick=lambda v: {"o": v[0], "resid": v[1]}, )
                if R.sessions and R.sessions[-1]["id"] == sid:
                    for r in R.sessions[-1]["ev"][0]["rows"]:
                        r["num"] = sc["num"]
                continue
            n = {"scalar": int(rng.integers(0, 100)), "range": range(int(rng.integers(1, 8))), "array": rng.integers(0, 500, 6),
                 "mat": rng.integers(0, 50, (2, 3)), "negative": np.arange(-3, 3), "empty": np.arange(0),
                 "large": rng.integers(10**5, 10**9, 4)}.get(sc["shape"])
            if n is None:   # narrow integer types, up to the largest value
                info = np.iinfo(sc["shape"])
                n = np.array([info.max, *rng.integers(info.min, info.max, 4)], dtype=sc["shape"])
            arr = np.asarray(n)
            R.batch(sid, op, lambda: getattr(gt, op)(n, beta=beta), [dict(n=a, beta=beta) for a in arr.reshape(-1)], arr.shape)
