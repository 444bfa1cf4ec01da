import numpy as np
import gftool as gt


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 4)):
            lat, m = sc["lat"], sc["m"]
            sid = f"{lat}/m={m}/{sc['via']}/D={sc['D']}/{rep}"
            rng = R.rng(sid)
            if sc["via"] == "module":
                f = getattr(gt.lattice, lat).dos_moment
            else:
                f = getattr(gt, lat + "_dos_moment", None)
                if f is None:
                    continue
            if sc["D"] == "scalar":
                D, bs = rng.uniform(0.2, 5), ()
            elif sc["D"] == "int":
                D, bs = int(rng.integers(1, 6)), ()
            else:
                D, bs = rng.uniform(0.2, 5, (2, 3)), (2, 3)
            mm = np.int64(m) if rep == 1 else m
            e = R.ev("dos_moment", lambda: np.broadcast_to(f(mm, D), bs) if np.ndim(f(mm, D)) <= len(bs) else f(mm, D),
                     [dict(D=d) for d in np.ravel(D)], bs, lat=lat, m=m)
            for r in e["rows"]:
                r["mi"] = m
            R.add(sid, e)
