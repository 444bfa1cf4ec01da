import hashlib
import locale
import logging
import sys
import threading
import warnings

import mpmath
import numpy as np

from registry2 import FX
from vf import enc

NAMES = sorted(FX)


def digest(x):
    if isinstance(x, list):
        return "list:" + repr(x)
    x = np.asarray(x)
    return hashlib.sha1(repr((x.dtype.str, x.shape)).encode() + np.ascontiguousarray(x).tobytes()).hexdigest()[:16]


def settings(level=None):
    rnd = np.random.get_state()
    s = (sorted(np.geterr().items()), mpmath.mp.prec, mpmath.iv.prec, [repr(f) for f in warnings.filters], hashlib.sha1(rnd[1].tobytes()).hexdigest(), rnd[2],
         np.get_printoptions(), logging.getLogger("gftool").level if level is None else level, logging.getLogger("gftool").disabled, locale.getlocale())
    return hashlib.sha1(repr(s).encode()).hexdigest()[:16]


def tup(r):
    return tuple(r) if isinstance(r, (tuple, list)) else (r,)


class Listener(logging.Handler):
    """Formats every record, like a handler writing to a file."""

    def emit(self, record):
        self.format(record)


def simultaneous(f, n=4):
    """Results of `n` calls in threads running at the same time."""
    barrier, res = threading.Barrier(n), [None]*n

    def go(i):
        barrier.wait()
        try:
            res[i] = f()
        except Exception as e:  # noqa: BLE001
            res[i] = e

    switch = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with warnings.catch_warnings():   # Python's catch_warnings is not thread-safe: keep its effects here
            ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(switch)
    for r in res:
        if isinstance(r, Exception):
            raise r
    return res


class Session:
    def __init__(self, R, sid, shapes):
        self.rng, self.sid, self.events, self.count, self.results = R.rng(sid), sid, [], 0, []
        self.level = None   # log level to report instead of the one set for the call
        self.shapes = shapes

    def make(self, fn, shapes):
        args = [np.array(g(self.rng, tuple(s))) for g, s in zip(fn.gens, shapes)]
        return [self.named(a) for a in args]

    def named(self, a):
        self.count += 1
        return [f"a{self.count}", a]

    def call(self, name, args, mayfail=False, bad=False, threads=0):
        fn = FX[name]
        vals = [a for _, a in args]
        given = [v[()] if isinstance(v, np.ndarray) and v.ndim == 0 and v.flags.writeable else v for v in vals]
        before = [digest(v) for v in vals]
        content = [digest(np.asarray(v)) for v in vals]
        if bad:
            given = [object()] + given[1:]
        res = {}

        def go():
            if threads:
                rs = [tup(r) for r in simultaneous(lambda: fn.call(*given), threads)]
                same = [r for r in rs if len(r) == len(rs[0]) and all(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True) for a, b in zip(r, rs[0]))]
                res["r"] = rs[0]
                res["all"] = rs if len(same) < len(rs) else rs[:1]
            else:
                r = fn.call(*given)
                res["r"] = tup(r)

        _, exc = self.attempt(go)
        out = []
        if not exc:
            out = [enc(np.asarray(r).ravel()) for r in res["r"]]
            self.results = [r for r in res["r"] if isinstance(r, np.ndarray)]
        ids = [i for i, _ in args]
        if bad:
            ids, before = ids[1:], before[1:]
            vals = vals[1:]
        for r in res.get("all", [])[1:]:   # a difference between the threads
            self.event(name, bad, content, ids, before, vals, fn, [enc(np.asarray(x).ravel()) for x in r], exc, mayfail)
        self.event(name, bad, content, ids, before, vals, fn, out, exc, mayfail)

    def event(self, name, bad, content, ids, before, vals, fn, out, exc, mayfail):
        self.events.append(dict(op=name, act="call", key=("bad:" if bad else "") + name + ":" + ",".join(content), ids=ids, before=before,
                                after=[digest(v) for v in vals], env=settings(self.level), out=out, exc=exc, mayfail=mayfail or bad, rtol=fn.rtol))

    def attempt(self, f):
        # no catch_warnings here: the settings of the process are observed
        from vf import limit
        try:
            with limit(60):
                return f(), ""
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa: BLE001
            return e, type(e).__name__


def run(R):
    for sc in R.scenarios:
        for rep in range(R.n(1, 1 if FX[sc['fn']].heavy else 2)):
            sid = f"{sc['fn']}/{'+'.join(sc['acts'])}/{rep}"
            if R.only is not None and sid != R.only:
                continue
            history(R, sc, sid)


def history(R, sc, sid):
    s = Session(R, sid, sc["args"])
    name, fn = sc["fn"], FX[sc["fn"]]
    args = s.make(fn, sc["args"])
    env = settings()
    s.call(name, args)
    for act in sc["acts"]:
        if act == "other-args":
            s.call(name, s.make(fn, sc["args"]), mayfail=fn.heavy)
        elif act == "other-function":
            for _ in range(3):
                other = NAMES[s.rng.integers(len(NAMES))]
                if FX[other].heavy:
                    continue
                s.call(other, s.make(FX[other], SHAPES[other]))
        elif act == "error":
            s.call(name, args, bad=True)
        elif act == "clobber-result":
            if s.results:
                ids = []
                for r in s.results:
                    if r.flags.writeable and not any(np.shares_memory(r, a) for _, a in args if isinstance(a, np.ndarray)):
                        r[...] = 77
                        ids.append(r)
                s.events.append(dict(op="caller", act="write", ids=[], after=[]))
        elif act == "read-only":
            ro = []
            for _, a in args:
                b = np.array(a)
                b.flags.writeable = False
                ro.append(s.named(b))
            s.call(name, ro)
        elif act == "fresh-copy":
            s.call(name, [s.named(np.array(a)) for _, a in args])
        elif act in ("wide", "narrow"):  # other precisions need not be supported, but must be left alone
            to = {"f": np.longdouble, "c": np.clongdouble} if act == "wide" else {"f": np.float32, "c": np.complex64}
            cast = [s.named(np.array(a, dtype=to.get(np.asarray(a).dtype.kind, np.asarray(a).dtype))) for _, a in args]
            s.call(name, cast, mayfail=True)
            s.call(name, cast, mayfail=True)
        elif act == "strided":  # views of a larger array
            views = []
            for _, a in args:
                a = np.asarray(a)
                big = np.full(a.shape[:-1] + (2*a.shape[-1],), 3, dtype=a.dtype) if a.ndim else np.array(a)
                v = big[..., ::2] if a.ndim else big
                v[...] = a
                views.append(s.named(v))
            s.call(name, views)
        elif act == "logging":   # somebody listens to every message
            log, handler = logging.getLogger("gftool"), Listener()
            level = log.level
            log.addHandler(handler)
            log.setLevel(logging.DEBUG)
            raising, logging.raiseExceptions = logging.raiseExceptions, True
            s.level = level
            try:
                s.call(name, args)
            finally:
                s.level = None
                log.removeHandler(handler)
                log.setLevel(level)
                logging.raiseExceptions = raising
        elif act == "threads" and not fn.heavy and "mp" not in name.replace(".", "_").replace("-", "_").split("_"):   # mpmath has a global precision
            s.call(name, args, threads=4)
        elif act == "list" and fn.likes:
            s.call(name, [s.named(a.tolist() if k in fn.likes and np.ndim(a) else np.array(a)) for k, (_, a) in enumerate(args)])
        s.call(name, args)
    R.add(sid, *s.events, env=env)


SHAPES = {}
_run = run


def run(R):  # noqa: F811
    for sc in R.scenarios:
        SHAPES[sc["fn"]] = sc["args"]
    _run(R)
