"""Recording side of the conformance checks: runs the real code from /repo/src and writes what it did
as histories for TLC (see spec/TraceEngine.tla, spec/Outcome.tla for the format)."""
import copy, importlib.abc, importlib.machinery, json, os, signal, sys, threading
from fractions import Fraction
import warnings
warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))


class _NoExt(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Last-resort placeholder for the compiled extension, which cannot be built here."""
    def find_spec(self, fullname, path, target=None):
        if fullname == "gpytoolbox_bindings":
            return importlib.machinery.ModuleSpec(fullname, self)

    def exec_module(self, module):
        def _dcsdd_cpp_impl(*a, **k):            # bound when the library is imported
            if "_dcsdd_stand_in" in module.__dict__:
                return module._dcsdd_stand_in(*a, **k)
            raise ImportError("the C++ extension gpytoolbox_bindings is not built")
        module._dcsdd_cpp_impl = _dcsdd_cpp_impl
        kind = os.environ.get("VERIF_NATIVE", "")
        if "geo" in kind:
            import geometry
            geometry.install(module)
        if kind not in ("", "geo"):
            import native
            native.install(module, REPO, os.environ.get("VERIF_WORK"), kind)


sys.meta_path.append(_NoExt())
import numpy as np
import scipy.sparse as sps
np.seterr(all="ignore")


def num(x):
    """exact numeral of a real number"""
    if isinstance(x, Fraction):
        return str(x.numerator) if x.denominator == 1 else f"{x.numerator}/{x.denominator}"
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        return "complex" if x.imag != 0 else num(float(x.real))
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else f"{n}/{d}"


def _int(v):
    v = int(v)
    return v if -2**30 < v < 2**30 else -2**30 + 1   # outside TLC's range: no valid index is that


def nested(a, f):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return f(a.item())
    return [nested(x, f) if isinstance(x, np.ndarray) else f(x) for x in a]


def raw(x):
    """inputs: plain nested lists; integers stay integers, floats become numerals"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "iu":
            return nested(x, _int)
        if x.dtype.kind == "b":
            return nested(x, bool)
        return nested(x, num)
    if isinstance(x, (list, tuple)):
        return [raw(y) for y in x]
    if isinstance(x, dict):
        return {k: raw(v) for k, v in x.items()}
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return _int(x)
    if isinstance(x, (float, np.floating, Fraction)):
        return num(x)
    if x is None:
        return "None"
    if isinstance(x, str):
        return x
    if sps.issparse(x):
        return trip(x)
    raise TypeError(type(x))


def nums(x):
    """inputs: every number as a numeral (also integer arrays)"""
    a = np.asarray(x)
    return nested(a, num) if a.ndim else num(a.item())


def trip(M):
    M = sps.coo_matrix(M)
    d = {}
    exact = {}
    for i, j, v in zip(M.row.tolist(), M.col.tolist(), M.data.tolist()):
        d.setdefault((i, j), []).append(v)
    out = []
    for (i, j) in sorted(d):
        vs = d[(i, j)]
        v = vs[0] if len(vs) == 1 else sum(vs)
        s = num(v)
        if s != "0":
            out.append([i, j, s])
    return out


def enc(x):
    """outputs: tagged values, see Outcome.tla"""
    if x is None:
        return {"t": "none"}
    if isinstance(x, (bool, np.bool_)):
        return {"t": "bool", "v": bool(x)}
    if isinstance(x, (int, np.integer)):
        return {"t": "int", "v": _int(x)}
    if isinstance(x, (float, np.floating, complex, np.complexfloating)):
        return {"t": "num", "v": num(x)}
    if isinstance(x, str):
        return {"t": "str", "v": x}
    if sps.issparse(x):
        return {"t": "sp", "sh": list(map(int, x.shape)), "e": trip(x)}
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enc(x.item())
        k = {"i": "i", "u": "i", "b": "b", "f": "f", "c": "f"}.get(x.dtype.kind, "o")
        if k == "o":
            return {"t": "other", "v": "object array"}
        f = {"i": _int, "b": bool, "f": num}[k]
        return {"t": "arr", "k": k, "sh": list(map(int, x.shape)), "a": nested(x, f)}
    if isinstance(x, (list, tuple)):
        return {"t": "seq", "a": [enc(y) for y in x]}
    return {"t": "other", "v": type(x).__name__}


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def snapshot(x):
    """a value that compares equal iff the object's content is unchanged"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", [snapshot(y) for y in x.ravel()])
        return ("nd", x.shape, x.dtype.str, x.tobytes())
    if sps.issparse(x):
        if x.format in ("csr", "csc"):
            return (x.format, x.shape, snapshot(x.data), snapshot(x.indices), snapshot(x.indptr))
        c = x.tocoo()
        return (x.format, x.shape, snapshot(c.data), snapshot(c.row), snapshot(c.col))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(y) for y in x])
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return ("s", repr(x))
    return ("id",)


class Recorder:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
        self.calls = 0
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.cur = None

    def rng(self, *salt):
        import zlib
        return np.random.default_rng([self.seed] + [zlib.crc32(str(s).encode()) for s in salt])

    @property
    def thorough(self):
        return self.tier == "thorough"

    def begin(self, id):
        self.cur = {"id": id, "ev": []}

    def end(self):
        if self.cur["ev"]:
            self.f.write(json.dumps(self.cur) + "\n")
            self.n += 1
        self.cur = None

    def event(self, op, inp, out, exc="", **extra):
        self.cur["ev"].append({"op": op, "in": inp, "out": {} if out is None else out, "exc": exc, **extra})

    def run(self, fn, *args, timeout=60, **kw):
        """-> (value, exception name or '')"""
        self.calls += 1
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            v = fn(*args, **kw)
            signal.setitimer(signal.ITIMER_REAL, 0)
            return v, ""
        except Timeout:
            return None, "Timeout"
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            return None, type(e).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def call(self, op, inp, fn, *args, timeout=60, post=None, extra=None, **kw):
        """run fn, record the event, return the value (or None)"""
        v, exc = self.run(fn, *args, timeout=timeout, **kw)
        out = enc(None) if exc else enc(post(v) if post else v)
        self.event(op, inp, out, exc, **(extra or {}))
        return v

    def one(self, id, op, inp, fn, *args, **kw):
        self.begin(id)
        v = self.call(op, inp, fn, *args, **kw)
        self.end()
        return v

    def close(self):
        self.f.close()
