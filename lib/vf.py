"""Recording side of the conformance checks: call the public API of gftool in /repo and record exact values.

Nothing in this file judges a result; the judgement is made by TLC on the recorded trace.
"""
import json
import os
import signal
import sys
import types
import warnings
from contextlib import contextmanager

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
if not os.path.exists(os.path.join(REPO, "gftool", "_version.py")):  # generated file, ignored by git
    _v = types.ModuleType("gftool._version")
    _v.version = _v.__version__ = "0.0"
    _v.version_tuple = (0, 0)
    sys.modules["gftool._version"] = _v
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")


def enc_real(x):
    """Exact string of a real number."""
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, np.longdouble):
        if np.isnan(x):
            return "nan"
        if np.isinf(x):
            return "inf" if x > 0 else "-inf"
        m, e = np.frexp(x)
        hi = int(m * np.longdouble(2**32))
        m2 = m * np.longdouble(2**32) - hi
        mant = hi * 2**40 + int(m2 * np.longdouble(2**40))
        sgn = "-" if mant < 0 else ""
        return f"{sgn}0x{abs(mant):x}p{int(e) - 72}"
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 2**53:
        return str(int(x))
    return x.hex()


def enc(x):
    """Exact string of a number, nested lists of strings for arrays."""
    if isinstance(x, np.ma.MaskedArray):
        x = x.filled(np.nan)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enc(x[()])
        return [enc(y) for y in x]
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, (complex, np.complexfloating)):
        if np.imag(x) == 0:
            return enc_real(np.real(x))
        return enc_real(np.real(x)) + "," + enc_real(np.imag(x))
    if type(x).__module__.startswith("mpmath"):
        return enc_mp(x)
    return enc_real(x)


def enc_mp(x):
    import mpmath
    if isinstance(x, mpmath.mpc):
        if x.imag == 0:
            return enc_mp(x.real)
        return enc_mp(x.real) + "," + enc_mp(x.imag)
    if mpmath.isnan(x):
        return "nan"
    if mpmath.isinf(x):
        return "inf" if x > 0 else "-inf"
    sign, man, exp, _ = x._mpf_
    if man == 0:
        return "0"
    return f"{'-' if sign else ''}0x{int(man):x}p{exp}"


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


@contextmanager
def limit(seconds):
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_hung = [0]


def attempt(f, seconds=60):
    """(value, exception name); calls that hang are given less time the more often it happens"""
    seconds = max(0.5, seconds/4**_hung[0])
    try:
        with limit(seconds), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(), ""
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, Timeout):
            _hung[0] += 1
        return e, type(e).__name__


class Recorder:
    """Collects the recorded sessions of one run."""

    def __init__(self, prop, seed, tier, scenarios, only=None):
        self.prop, self.seed, self.tier, self.scenarios, self.only = prop, seed, tier, scenarios, only
        self.sessions = []
        self.thorough = tier == "thorough"

    def rng(self, *key):
        import zlib
        h = zlib.crc32(repr(key).encode())
        return np.random.default_rng([self.seed, h])

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, sid, *events, **meta):
        """Add one session consisting of the given events."""
        if self.only is not None and sid != self.only:
            return
        self.sessions.append(dict(id=sid, **meta, ev=list(events)))

    def ev(self, op, f, rows, esh, core=0, pick=None, seconds=60, **extra):
        """
        Record one call.

        rows : list of dicts, the exact inputs per batch element (C order of the batch)
        esh  : expected batch shape of the result
        core : number of trailing axes which belong to one element, or tuple of their lengths
        pick : function extracting dict of name -> array from result (default {'o': result})
        """
        val, exc = attempt(f, seconds)
        e = dict(op=op, exc=exc, sh=True, rows=[], **extra)
        if exc:
            return e
        size = int(np.prod(esh, dtype=int))
        assert len(rows) == size, (op, len(rows), esh)
        res = [dict((k, enc(v)) for k, v in r.items()) for r in rows]
        try:  # a result of a different type is the fault of the code under test
            outs = pick(val) if pick is not None else {"o": val}
            e["outs"] = sorted(outs)
            for name, o in outs.items():
                c = core[name] if isinstance(core, dict) else core
                o = np.asarray(o)
                if isinstance(c, int):
                    ok = o.ndim == len(esh) + c and o.shape[:len(esh)] == tuple(esh)
                    csh = o.shape[len(esh):]
                else:
                    ok = o.shape == tuple(esh) + tuple(c)
                    csh = tuple(c)
                if not ok:
                    e["sh"] = False
                    e["gotshape"] = list(o.shape)
                    return e
                o = o.reshape((size,) + csh)
                for r, x in zip(res, o):
                    r[name] = enc(x)
        except Exception as err:  # noqa: BLE001
            e["exc"] = "Uninterpretable" + type(err).__name__
            return e
        e["rows"] = res
        return e

    def one(self, sid, op, f, row, core=0, pick=None, **extra):
        """Session with a single call without batch."""
        if self.only is not None and sid != self.only:
            return
        self.add(sid, self.ev(op, f, [row], (), core=core, pick=pick, **extra))

    def batch(self, sid, op, f, rows, esh, core=0, pick=None, **extra):
        if self.only is not None and sid != self.only:
            return
        self.add(sid, self.ev(op, f, rows, esh, core=core, pick=pick, **extra))

    def error(self, sid, op, f, **extra):
        """Session with a call that is expected to be rejected."""
        if self.only is not None and sid != self.only:
            return
        _, exc = attempt(f)
        self.add(sid, dict(op=op, exc=exc, sh=True, rows=[], **extra))


def main(argv):
    import importlib
    prop, seed, tier, scen_file, out_file = argv[:5]
    only = argv[5] if len(argv) > 5 else None
    with open(scen_file) as f:
        scenarios = [json.loads(line) for line in f if line.strip()]
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "drivers"))
    drv = importlib.import_module(prop.lower())
    import gftool
    assert os.path.dirname(os.path.dirname(os.path.abspath(gftool.__file__))) == os.path.abspath(REPO), gftool.__file__
    rec = Recorder(prop, int(seed), tier, scenarios, only)
    drv.run(rec)
    with open(out_file, "w") as f:
        for s in rec.sessions:
            f.write(json.dumps(s) + "\n")


if __name__ == "__main__":
    sys.modules["vf"] = sys.modules["__main__"]
    main(sys.argv[1:])
