"""numpy / math / json / scipy functions extended to symbolic (object dtype) values.

Every patched function delegates to the original unless a Sym is involved, so the
library code under test is executed unchanged.  Installed only in symbolic worker
processes.
"""
import builtins
import functools
import json
import math
import operator

import sys

import numpy as np

from . import sym as S
from .sym import Sym, Unsupported, lift

ORIG = {}


def has_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def active():
    return S.ENGINE is not None


def asobj(x):
    a = ORIG["asarray"](x)
    if a.dtype != object:
        return a
    return a


def emap(fn, *args):
    """elementwise map with broadcasting; scalars stay scalars"""
    arrs = [a if isinstance(a, Sym) else asobj(a) for a in args]
    if all(isinstance(a, Sym) or a.ndim == 0 for a in arrs):
        return fn(*[a if isinstance(a, Sym) else a[()] for a in arrs])
    w = []
    for a in arrs:
        if isinstance(a, Sym):
            z = np.empty((), dtype=object)
            z[()] = a
            a = z
        w.append(a)
    b = np.broadcast_arrays(*w)
    out = np.empty(b[0].shape, dtype=object)
    for i in np.ndindex(*b[0].shape):
        out[i] = fn(*[x[i] for x in b])
    return out


def tofloat_out(r, out, where=True):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if where is True:
        out[...] = r
    else:
        np.copyto(out, r, where=where, casting="unsafe")
    return out


class UWrap:
    """ufunc wrapper"""

    def __init__(self, orig, fn, nargs, exact_scalar=False):
        self._orig = orig
        self._fn = fn
        self._n = nargs
        self._exact = exact_scalar
        self.__name__ = orig.__name__

    def __call__(self, *args, **kw):
        a = args[:self._n]
        if any(has_sym(x) for x in a) or (kw.get("out") is not None and has_sym(kw["out"])):
            out = kw.get("out")
            where = kw.get("where", True)
            if len(args) > self._n:
                out = args[self._n]
            r = emap(self._fn, *a)
            if where is not True and out is None:
                r = asobj(r).copy()
                wh = np.broadcast_to(where, r.shape)
                r[~wh] = np.nan
            return tofloat_out(r, out, where)
        if self._exact and active() and len(a) == self._n and not kw:
            r = self._exact(*a)
            if r is not None:
                return r
        return self._orig(*args, **kw)

    def __getattr__(self, n):
        return getattr(self._orig, n)

    def __repr__(self):
        return repr(self._orig)


def _is_scalar(x):
    return isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool)


def _exact_deg2rad(x):
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype != object:
        x = x[()]
    if _is_scalar(x):
        if x == 0 or not math.isfinite(x):
            return None
        q = lift(x)
        if isinstance(q, Sym) and q.is_const():
            return q * S.PI() / 180
    return None


def _exact_trig(f):
    def g(x):
        if _is_scalar(x) and math.isfinite(x) and x != 0:
            q = S.lift_float(float(x))
            if not q.is_const() and ((S.T.PI.id, 1),) in q.t:
                r = f(q)
                if r.is_const():
                    return float(r.const_value())
                return r
        return None
    return g


def _exact_sqrt(x):
    if _is_scalar(x) and math.isfinite(x) and x > 0:
        q = lift(x)
        if isinstance(q, Sym) and q.is_const():
            r = math.sqrt(x)
            if r == int(r):
                return None
            return S.sx_sqrt(q)
    return None


def _nan_el(x):
    if isinstance(x, Sym):
        return False
    return x is not None and x != x


def _inf_el(x):
    if isinstance(x, Sym):
        return False
    return isinstance(x, (float, np.floating)) and x in (S.INF, -S.INF)


def boolmap(fn):
    def g(orig, x, *a, **k):
        r = emap(fn, x)
        if isinstance(r, np.ndarray):
            return r.astype(bool)
        return np.bool_(r)
    return g


def el_div(a, b):
    r = S.sx_div(a, b)
    return r


def smart_div(a, b):
    """a / b with numpy (not python) zero-division behaviour"""
    if isinstance(a, Sym) or isinstance(b, Sym) or has_sym(a) or has_sym(b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return emap(el_div, a, b)
        r = el_div(a, b)
        if r is NotImplemented:
            return operator.truediv(a, b)
        return r
    return operator.truediv(a, b)


def smart_idiv(a, b):
    if isinstance(a, np.ndarray):
        if a.dtype == object or has_sym(b):
            if a.dtype != object:
                raise Unsupported("in-place symbolic division into a float array")
            a[...] = emap(el_div, a, b)
            return a
        return operator.itruediv(a, b)
    return smart_div(a, b)


def el_mod(a, b):
    return S.sx_fmod(a, b)


def smart_mod(a, b):
    if isinstance(a, str):
        from . import strings
        return strings.fmt_mod(a, b)
    if has_sym(a) or has_sym(b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return emap(el_mod, a, b)
        return el_mod(a, b)
    return a % b


def smart_pow(a, b):
    if has_sym(a) or has_sym(b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return emap(S.sx_pow, a, b)
        return S.sx_pow(a, b)
    return a ** b


def smart_floordiv(a, b):
    if has_sym(a) or has_sym(b):
        return emap(lambda x, y: S.sx_floor(S.sx_div(x, y)), a, b)
    return a // b


def _kind_of(dt):
    try:
        return np.dtype(dt).kind
    except TypeError:
        return None


def smart_astype(obj, *a, **k):
    if isinstance(obj, np.ndarray) and obj.dtype == object:
        dt = a[0] if a else k.get("dtype")
        kd = _kind_of(dt)
        if kd == "f":
            return obj.copy()
        if kd == "b":
            out = np.empty(obj.shape, dtype=bool)
            for i in np.ndindex(*obj.shape):
                out[i] = bool(obj[i])
            return out
        if kd in "iu":
            return emap(lambda x: S.sx_trunc(x) if isinstance(x, Sym) else int(x), obj)
    return obj.astype(*a, **k)


def smart_float(*a):
    if a and isinstance(a[0], Sym):
        return a[0]
    if a and isinstance(a[0], np.ndarray) and a[0].dtype == object and a[0].size == 1:
        return smart_float(a[0].reshape(-1)[0])
    if a and isinstance(a[0], str):
        from . import strings
        return strings.parse_float(a[0])
    return float(*a)


def smart_int(*a):
    if a and isinstance(a[0], Sym):
        v = S.sx_trunc(a[0])
        return v
    if a and isinstance(a[0], str) and len(a) == 1:
        from . import strings
        return strings.parse_int(a[0])
    return int(*a)


def smart_round(x, n=None):
    if isinstance(x, Sym):
        return S.sx_round(x, n or 0)
    return round(x, n) if n is not None else round(x)


def smart_isinstance(o, c):
    if isinstance(o, Sym):
        cs = c if isinstance(c, tuple) else (c,)
        for x in _flat(cs):
            if x in (float, np.float64, np.floating, np.number, np.inexact, np.generic):
                return True
            if x is int:
                continue
            try:
                if builtins.isinstance(o, x):
                    return True
            except TypeError:
                pass
        return False
    return builtins.isinstance(o, c)


def _flat(cs):
    for c in cs:
        if isinstance(c, tuple):
            yield from _flat(c)
        else:
            yield c


def smart_str(*a, **k):
    return str(*a, **k)


# --------------------------------------------------------------- linear algebra

def norm(orig, x, ord=None, axis=None, keepdims=False):
    x = asobj(x)
    if ord not in (None, 2, "fro"):
        if ord == 1 and (axis is not None or x.ndim == 1):
            return abs_(x).sum(axis=axis, keepdims=keepdims)
        raise Unsupported("norm ord")
    if axis is None:
        sq = x.ravel()
        s = S.Sym({})
        for e in sq:
            s = s + lift(e) * lift(e) if not _nan_el(e) else S.NAN
            if isinstance(s, float):
                break
        r = S.sx_sqrt(s) if not _bad(s) else s
        if keepdims:
            a = np.empty((1,) * x.ndim, dtype=object)
            a[...] = r
            return a
        return r
    sq = emap(lambda e: e * e if not _nan_el(e) else S.NAN, x)
    s = np.sum(sq, axis=axis, keepdims=keepdims)
    r = emap(S.sx_sqrt, s)
    return np.float64(r) if type(r) is float else r


def _bad(s):
    return not isinstance(s, Sym) and s != s


def abs_(x):
    return emap(abs, x)


def det_n(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    tot = 0
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = m[0, j] * det_n(minor)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def _simp(x):
    x = lift(x)
    if isinstance(x, Sym):
        s = x.single()
        if s is None:
            return Sym({})
        # keep small sums expanded
        r = Sym({s[1]: s[0]})
        if len(s[1]) == 1 and s[1][0][1] == 1:
            b = S.T.bases[s[1][0][0]]
            if b.kind == "poly" and len(b.poly) <= 12:
                return Sym({m: S.nrm(c * s[0]) for m, c in b.poly.items()})
        return r
    return x


def _anynan(a):
    return any(_nan_el(e) or _inf_el(e) for e in a.ravel())


def det(orig, m):
    m = asobj(m)
    if m.ndim == 2:
        if _anynan(m):
            return S.NAN
        return _simp(det_n(m))
    out = np.empty(m.shape[:-2], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = det(orig, m[i])
    return out


def inv(orig, m):
    m = asobj(m)
    if m.ndim > 2:
        out = np.empty(m.shape, dtype=object)
        for i in np.ndindex(*m.shape[:-2]):
            out[i] = inv(orig, m[i])
        return out
    n = m.shape[0]
    if m.shape[0] != m.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if _anynan(m):
        return np.full((n, n), S.NAN, dtype=object)
    d = _simp(det_n(m))
    if S.sign_in(lift(d), {0}):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, j, 0), i, 1)
            c = det_n(minor) if n > 1 else 1
            c = c if (i + j) % 2 == 0 else -c
            out[i, j] = _simp(S.sx_div(_simp(c), d))
    return out


def solve(orig, a, b):
    a = asobj(a)
    b = asobj(b)
    if a.ndim > 2:
        # all systems are factorised before any result is returned
        invs = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            invs[i] = inv(None, a[i])
        if b.ndim == 1:
            out = np.empty(a.shape[:-2] + b.shape, dtype=object)
            for i in np.ndindex(*a.shape[:-2]):
                out[i] = np.dot(invs[i], b)
            return out
        bb = np.broadcast_to(b, a.shape[:-2] + b.shape[-2:])
        out = np.empty(bb.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = np.dot(invs[i], bb[i])
        return out
    return np.dot(inv(None, a), b)


def lstsq(orig, a, b, rcond=None):
    a = asobj(a)
    b = asobj(b)
    at = a.T
    x = np.dot(inv(None, np.dot(at, a)), np.dot(at, b))
    return x, None, None, None


# --------------------------------------------------------------- creation

def _conv_dtype(k, args, idx):
    """float dtype requests become object"""
    if "dtype" in k and k["dtype"] is not None:
        if _kind_of(k["dtype"]) == "f":
            k = dict(k)
            k["dtype"] = object
    elif len(args) > idx and args[idx] is not None and _kind_of(args[idx]) == "f":
        args = args[:idx] + (object,) + args[idx + 1:]
    return args, k


def array(orig, *args, **k):
    if args and has_sym(args[0]):
        a2, k2 = _conv_dtype(k, args, 1)
        dt = k2.get("dtype") if "dtype" in k2 else (a2[1] if len(a2) > 1 else None)
        if dt is not None and _kind_of(dt) in "iu":
            r = orig(args[0], dtype=object)
            return emap(lambda x: S.sx_trunc(x) if isinstance(x, Sym) else int(x), r)
        r = orig(*a2, **k2)
        if r.dtype != object:
            r = r.astype(object)
        if dt is not None:
            r = emap(lambda x: S.NAN if x is None else x, r) if any(x is None for x in r.flat) else r
        return r
    return orig(*args, **k)


def creation(name):
    def f(orig, *args, **k):
        dt = k.get("dtype")
        pos = {"zeros": 1, "ones": 1, "empty": 1, "full": 2}[name]
        if dt is None and len(args) > pos:
            dt = args[pos]
        if dt is None or _kind_of(dt) == "f":
            if dt is None and name == "full" and not has_sym(args[1]) and _kind_of(np.asarray(args[1]).dtype) in "iub":
                return orig(*args, **k)
            k = dict(k)
            k.pop("dtype", None)
            args = args[:pos]
            if name == "empty":
                r = ORIG["full"](args[0] if args else k["shape"], S.NAN, dtype=object)
                return r
            r = orig(*args, dtype=object, **k)
            if name == "zeros":
                r[...] = 0.0
            elif name == "ones":
                r[...] = 1.0
            return r
        return orig(*args, **k)
    return f


def promote(a, v):
    """the float array a as an object array, when a symbolic value v is about to be stored in it
    and no other variable refers to it"""
    if type(a) is np.ndarray and a.dtype.kind == "f" and a.base is None and active() and has_sym(v) \
            and sys.getrefcount(a) <= 3:
        return a.astype(object)
    return a


def as_objects(orig, *args, **k):
    r = orig(*args, **k)
    return r.astype(object) if isinstance(r, np.ndarray) and r.dtype.kind == "f" else r


def creation_like(name):
    def f(orig, a, *args, **k):
        if k.get("dtype") is None or _kind_of(k.get("dtype")) == "f":
            aa = a if isinstance(a, np.ndarray) else asobj(a)
            if aa.dtype == object or aa.dtype.kind == "f" or _kind_of(k.get("dtype")) == "f" and k.get("dtype") is not None:
                v = {"zeros_like": 0.0, "ones_like": 1.0, "empty_like": S.NAN, "full_like": args[0] if args else k.get("fill_value")}[name]
                r = np.empty(k.get("shape") or aa.shape, dtype=object)
                r[...] = v
                return r
        return orig(a, *args, **k)
    return f


# --------------------------------------------------------------- reductions

def nanred(better):
    def f(orig, a, axis=None, **k):
        a = asobj(a)
        if axis is None:
            el = [e for e in a.ravel() if not _nan_el(e)]
            if not el:
                return S.NAN
            r = el[0]
            for e in el[1:]:
                if better(e, r):
                    r = e
            return r
        out = np.apply_along_axis(lambda v: f(orig, v), axis, a)
        return out
    return f


def nanarg(better, skipnan=True):
    def f(orig, a, axis=None, **k):
        a = asobj(a)
        if axis is None:
            best = None
            for i, e in enumerate(a.ravel()):
                if _nan_el(e):
                    if skipnan:
                        continue
                    return i
                if best is None or better(e, best[1]):
                    best = (i, e)
            if best is None:
                raise ValueError("All-NaN slice encountered")
            return best[0]
        m = np.moveaxis(a, axis, -1)
        out = np.empty(m.shape[:-1], dtype=int)
        for i in np.ndindex(*out.shape):
            out[i] = f(orig, m[i])
        return out
    return f


def plainred(better):
    """min / max with NaN propagation"""
    def f(orig, a, axis=None, **k):
        a = asobj(a)
        if axis is None:
            r = None
            for e in a.ravel():
                if _nan_el(e):
                    return S.NAN
                if r is None or better(e, r):
                    r = e
            if r is None:
                raise ValueError("zero-size array to reduction operation")
            return r
        m = np.moveaxis(a, axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(orig, m[i])
        return out
    return f


def nansum(orig, a, axis=None, **k):
    a = emap(lambda e: 0 if _nan_el(e) else e, a)
    return np.sum(a, axis=axis, **k)


def nanmean(orig, a, axis=None, **k):
    n = np.sum(np.logical_not(np.isnan(a)), axis=axis)
    return smart_div(nansum(orig, a, axis=axis), n)


def isclose_el(rtol, atol, equal_nan):
    def f(a, b):
        if _nan_el(a) or _nan_el(b):
            return bool(equal_nan and _nan_el(a) and _nan_el(b))
        if _inf_el(a) or _inf_el(b):
            return (not isinstance(a, Sym)) and (not isinstance(b, Sym)) and a == b
        return abs(a - b) <= atol + rtol * abs(b)
    return f


def isclose(orig, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = emap(isclose_el(rtol, atol, equal_nan), a, b)
    return r.astype(bool) if isinstance(r, np.ndarray) else np.bool_(r)


def allclose(orig, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(isclose(orig, a, b, rtol, atol, equal_nan)))


def array_equal(orig, a, b, equal_nan=False):
    a, b = asobj(a), asobj(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


def wrap1(name, f, mod=np, test=None):
    orig = getattr(mod, name)
    ORIG.setdefault(name, orig)

    def w(*args, **k):
        if any(has_sym(x) for x in args[:3]) or any(has_sym(v) for v in k.values()):
            return f(orig, *args, **k)
        return orig(*args, **k)
    functools.update_wrapper(w, orig, assigned=("__name__", "__doc__"), updated=())
    w.__wrapped_orig__ = orig
    setattr(mod, name, w)


def wrap_always(name, f, mod=np):
    orig = getattr(mod, name)
    ORIG.setdefault(name, orig)

    def w(*args, **k):
        if active():
            return f(orig, *args, **k)
        return orig(*args, **k)
    w.__name__ = name
    setattr(mod, name, w)


class MathWrap:
    pass


def sign_el(x):
    if _nan_el(x):
        return x
    if isinstance(x, Sym):
        return S.sign_of(x)
    return (x > 0) - (x < 0)


def interp(orig, x, xp, fp, left=None, right=None, period=None):
    xp = list(xp)
    fp = list(fp)

    def f(v):
        if _nan_el(v):
            return v
        if v <= xp[0]:
            return fp[0] if left is None or v == xp[0] else left
        if v >= xp[-1]:
            return fp[-1] if right is None or v == xp[-1] else right
        for i in range(len(xp) - 1):
            if v <= xp[i + 1]:
                return fp[i] + smart_div((v - xp[i]), (xp[i + 1] - xp[i])) * (fp[i + 1] - fp[i])
    return emap(f, x)


def arange(orig, *args, dtype=None, **k):
    """start + n*step for every n that stays before stop (the path forks on the number of values)"""
    args = list(args) + [k.get(n) for n in ("start", "stop", "step")[len(args):]]
    start, stop, step = args
    if stop is None:
        start, stop = 0, start
    if start is None:
        start = 0
    if step is None:
        step = 1
    down = bool(step < 0)
    out = []
    while True:
        v = start + len(out) * step
        if not (v > stop if down else v < stop):
            break
        out.append(v)
        if len(out) > 64:
            raise Unsupported("arange with more than 64 values")
    r = np.empty(len(out), dtype=object)
    r[:] = out
    return r


def linspace(orig, start, stop, num=50, endpoint=True, **k):
    n = int(num)
    d = n - 1 if endpoint else n
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = start + (stop - start) * S.Q(i, d) if i else start
    return r


class _BoolReduce:
    pass


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import scipy.stats, scipy.optimize, scipy.interpolate, pandas  # noqa  (before patching)
    try:
        import cv2  # noqa
    except ImportError:
        pass
    ORIG["asarray"] = np.asarray
    ORIG["full"] = np.full
    un = {
        "sqrt": S.sx_sqrt, "sin": S.sx_sin, "cos": S.sx_cos, "tan": S.sx_tan,
        "arcsin": S.sx_asin, "arccos": S.sx_acos, "arctan": S.sx_atan,
        "exp": S.sx_exp, "log": S.sx_log, "floor": S.sx_floor,
        "ceil": lambda x: -S.sx_floor(-x) if not _nan_el(x) else x,
        "rint": lambda x: S.sx_round(x, 0),
        "trunc": S.sx_trunc,
        "square": lambda x: x * x,
        "absolute": lambda x: abs(x), "abs": lambda x: abs(x), "fabs": lambda x: abs(x),
        "sign": sign_el,
        "deg2rad": lambda x: lift(x) * S.PI() / 180 if not _nan_el(x) else x,
        "radians": lambda x: lift(x) * S.PI() / 180 if not _nan_el(x) else x,
        "rad2deg": lambda x: lift(x) * 180 / S.PI() if not _nan_el(x) else x,
        "degrees": lambda x: lift(x) * 180 / S.PI() if not _nan_el(x) else x,
        "reciprocal": lambda x: S.sx_div(1, x),
        "log10": lambda x: _unsup("log10"), "log2": lambda x: _unsup("log2"),
        "expm1": lambda x: S.sx_exp(x) - 1, "log1p": lambda x: S.sx_log(x + 1),
    }
    exact = {"deg2rad": _exact_deg2rad, "radians": _exact_deg2rad,
             "sin": _exact_trig(S.sx_sin), "cos": _exact_trig(S.sx_cos), "sqrt": _exact_sqrt}
    for n, f in un.items():
        setattr(np, n, UWrap(getattr(np, n), f, 1, exact.get(n)))
    bi = {
        "arctan2": S.sx_atan2, "hypot": lambda a, b: S.sx_sqrt(a * a + b * b),
        "divide": el_div, "true_divide": el_div,
        "power": S.sx_pow, "float_power": S.sx_pow,
        "mod": el_mod, "remainder": el_mod,
        "floor_divide": lambda a, b: S.sx_floor(S.sx_div(a, b)),
        "maximum": lambda a, b: a if _nan_el(a) else (b if _nan_el(b) else (a if a >= b else b)),
        "minimum": lambda a, b: a if _nan_el(a) else (b if _nan_el(b) else (a if a <= b else b)),
        "fmax": lambda a, b: b if _nan_el(a) else (a if _nan_el(b) else (a if a >= b else b)),
        "fmin": lambda a, b: b if _nan_el(a) else (a if _nan_el(b) else (a if a <= b else b)),
        "fmod": lambda a, b: a - b * S.sx_trunc(S.sx_div(a, b)),
        "copysign": lambda a, b: abs(a) if b >= 0 else -abs(a),
    }
    for n, f in bi.items():
        if hasattr(np, n):
            setattr(np, n, UWrap(getattr(np, n), f, 2))
    wrap1("isnan", boolmap(_nan_el))
    wrap1("isinf", boolmap(_inf_el))
    wrap1("isfinite", boolmap(lambda x: not (_nan_el(x) or _inf_el(x))))
    wrap1("isclose", isclose)
    wrap1("allclose", allclose)
    wrap1("array_equal", array_equal)
    wrap1("norm", norm, np.linalg)
    wrap1("inv", inv, np.linalg)
    wrap1("pinv", inv, np.linalg)
    wrap1("det", det, np.linalg)
    wrap1("solve", solve, np.linalg)
    wrap1("lstsq", lstsq, np.linalg)
    for n in ("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray"):
        if hasattr(np, n):
            wrap1(n, array)
    for n in ("zeros", "ones", "empty", "full"):
        wrap_always(n, creation(n))
    for n in ("eye", "identity"):
        wrap_always(n, as_objects)
    for n in ("zeros_like", "ones_like", "empty_like", "full_like"):
        wrap_always(n, creation_like(n))
    lt = lambda a, b: a < b
    gt = lambda a, b: a > b
    wrap1("nanmin", nanred(lt))
    wrap1("nanmax", nanred(gt))
    wrap1("nanargmin", nanarg(lt))
    wrap1("nanargmax", nanarg(gt))
    wrap1("argmin", nanarg(lt, False))
    wrap1("argmax", nanarg(gt, False))
    for n in ("min", "amin"):
        wrap1(n, plainred(lt))
    for n in ("max", "amax"):
        wrap1(n, plainred(gt))
    wrap1("nansum", nansum)
    wrap1("nanmean", nanmean)
    wrap1("interp", interp)
    wrap1("arange", arange)
    wrap1("linspace", linspace)
    wrap1("nan_to_num", lambda o, x, copy=True, nan=0.0, **k: emap(lambda e: nan if _nan_el(e) else e, x))
    wrap1("round", lambda o, x, decimals=0, **k: emap(lambda e: S.sx_round(e, decimals), x))
    wrap1("around", lambda o, x, decimals=0, **k: emap(lambda e: S.sx_round(e, decimals), x))
    wrap1("isscalar", lambda o, x: isinstance(x, Sym) or o(x))
    wrap1("iscomplexobj", lambda o, x: False)
    wrap1("average", lambda o, a, axis=None, weights=None, **k: np.mean(a, axis=axis) if weights is None else smart_div(np.sum(np.multiply(a, weights), axis=axis), np.sum(weights)))
    wrap1("std", lambda o, a, axis=None, **k: _unsup("std"))
    # math
    mm = {"sqrt": S.sx_sqrt, "sin": S.sx_sin, "cos": S.sx_cos, "tan": S.sx_tan, "asin": S.sx_asin,
          "acos": S.sx_acos, "atan": S.sx_atan, "exp": S.sx_exp, "log": S.sx_log,
          "radians": lambda x: x * S.PI() / 180, "degrees": lambda x: x * 180 / S.PI(),
          "floor": S.sx_floor, "ceil": lambda x: -S.sx_floor(-x), "trunc": S.sx_trunc,
          "fabs": abs, "isnan": lambda x: False, "isinf": lambda x: False, "isfinite": lambda x: True}
    for n, f in mm.items():
        _wrap_math(n, f, 1)
    _wrap_math("atan2", S.sx_atan2, 2)
    _wrap_math("hypot", lambda *a: S.sx_sqrt(sum(x * x for x in a)), 99)
    _wrap_math("pow", S.sx_pow, 2)
    _wrap_math("fmod", lambda a, b: a - b * S.sx_trunc(S.sx_div(a, b)), 2)
    _wrap_math("copysign", lambda a, b: abs(a) if b >= 0 else -abs(a), 2)
    _wrap_math("isclose", lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol), 2)
    # json
    od, ol = json.dumps, json.loads
    store = {}

    def dumps(o, *a, **k):
        if active():
            prev = k.get("default")

            def default(x):
                if isinstance(x, Sym):
                    key = "\u0001sym%d" % len(store)
                    store[key] = x
                    return key
                if prev is not None:
                    return prev(x)
                raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)
            k["default"] = default
        return od(o, *a, **k)

    def unsym(v):
        if isinstance(v, str) and v.startswith("\u0001sym"):
            return store[v]
        if isinstance(v, list):
            return [unsym(x) for x in v]
        if isinstance(v, dict):
            return {kk: unsym(x) for kk, x in v.items()}
        return v

    def loads(s, *a, **k):
        return unsym(ol(s, *a, **k)) if active() else ol(s, *a, **k)
    json.dumps = dumps
    json.loads = loads
    json.dump = lambda o, fp, *a, **k: fp.write(dumps(o, *a, **k))
    json.load = lambda fp, *a, **k: loads(fp.read(), *a, **k)


def _unsup(n):
    raise Unsupported(n)


def _wrap_math(name, f, n):
    orig = getattr(math, name)

    def w(*a, **k):
        if any(isinstance(x, Sym) for x in a):
            return f(*a, **k)
        if active() and len(a) == 1 and name in ("radians",):
            r = _exact_deg2rad(a[0])
            if r is not None:
                return r
        return orig(*a, **k)
    w.__name__ = name
    setattr(math, name, w)
