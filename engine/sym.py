"""Symbolic real values for executing the real numpy code.

A ``Sym`` is a sum of terms; a term is a rational coefficient times a product of
*bases* with integer exponents.  Bases are atoms (input variables, pi, sine/cosine of
an angle unit, square roots, inverse-trigonometric / exp / log applications) or
interned canonical polynomials over atoms.  Arithmetic is exact real arithmetic.
Comparisons never produce symbolic booleans: they ask the current ``Engine`` to decide
the sign of the difference, which forks the path when both outcomes are feasible.

NaN and infinities are ordinary concrete floats on a path; they are produced exactly
where IEEE arithmetic would produce them (division by an exact zero, square root of a
negative value), because those operations fork on the exceptional condition.
"""
import math
from fractions import Fraction as Q

from .rawnp import np as _np

# ------------------------------------------------------------------ control flow


class EngineStop(BaseException):
    """control exceptions of the engine are not catchable by ``except Exception``"""


class Restart(EngineStop):
    """finer angle granularity needed: restart the exploration"""


class Unsupported(EngineStop):
    pass


class Infeasible(EngineStop):
    pass


class PathLimit(EngineStop):
    pass


class TooBig(Exception):
    pass


ENGINE = None          # set by explore.Engine


def set_engine(e):
    global ENGINE
    ENGINE = e


# ------------------------------------------------------------------ bases

class Base:
    __slots__ = ("id", "kind", "name", "args", "lo", "hi", "integer", "poly", "extra", "key")

    def __init__(self, kind, name, args=(), lo=None, hi=None, integer=False, poly=None, extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.lo = lo
        self.hi = hi
        self.integer = integer
        self.poly = poly
        self.extra = extra
        self.id = None

    def __repr__(self):
        return self.name


class Table:
    """All bases of one harness execution (kept across the paths of a harness so that
    identical sub-expressions keep identical names)."""

    def __init__(self):
        self.bases = []
        self.index = {}
        self.granularity = {}      # unit monomial -> Fraction divisor
        self.PI = self.atom("pi", "pi", lo=Q(314159265358979323846, 10 ** 20), hi=Q(314159265358979323847, 10 ** 20))

    def intern(self, key, make):
        b = self.index.get(key)
        if b is None:
            b = make()
            b.id = len(self.bases)
            b.key = key
            self.bases.append(b)
            self.index[key] = b
        return b

    def atom(self, kind, name, args=(), lo=None, hi=None, integer=False, extra=None, key=None):
        return self.intern((kind, name) if key is None else key,
                           lambda: Base(kind, name, args, lo, hi, integer, None, extra))


T = Table()


def reset():
    global T
    g = T.granularity
    T = Table()
    T.granularity = g
    return T


def full_reset():
    global T
    T = Table()
    return T


# ------------------------------------------------------------------ monomials

def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def mono_pow(a, n):
    return tuple((k, e * n) for k, e in a) if n else ()


def nrm(c):
    if isinstance(c, Q) and c.denominator == 1:
        return c.numerator
    return c


# ------------------------------------------------------------------ polynomials over atoms
MAXTERMS = 30000


def _needs_reduce(m):
    for k, e in m:
        b = T.bases[k]
        if b.kind == "poly":
            return k
        if e >= 2 and b.kind in ("sin", "sqrt"):
            return k
    return None


def poly_reduce(p):
    """expand composite bases with positive exponents and reduce sin^2, sqrt^2."""
    out = {}
    work = list(p.items())
    n = 0
    while work:
        m, c = work.pop()
        if not c:
            continue
        k = _needs_reduce(m)
        if k is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = nrm(v)
            else:
                out.pop(m, None)
            if len(out) > MAXTERMS:
                raise TooBig()
            continue
        n += 1
        if n > 400000:
            raise TooBig()
        b = T.bases[k]
        d = dict(m)
        e = d.pop(k)
        if b.kind == "poly":
            if e < 0:
                # a denominator left in place: treat as atomic
                raise TooBig()
            rest = tuple(sorted(d.items()))
            pw = poly_pow(b.poly, e)
            for m2, c2 in pw.items():
                work.append((mono_mul(rest, m2), c * c2))
        elif b.kind == "sin":
            cosid = b.extra.id
            if e - 2:
                d[k] = e - 2
            rest = tuple(sorted(d.items()))
            work.append((rest, c))
            work.append((mono_mul(rest, ((cosid, 2),)), -c))
        else:   # sqrt
            if e - 2:
                d[k] = e - 2
            rest = tuple(sorted(d.items()))
            for m2, c2 in b.poly.items():
                work.append((mono_mul(rest, m2), c * c2))
    return out


_powcache = {}


def poly_pow(p, n):
    if n == 1:
        return p
    key = (id(T), frozenset(p.items()), n)
    r = _powcache.get(key)
    if r is None:
        h = poly_pow(p, n // 2)
        r = poly_mul(h, h)
        if n % 2:
            r = poly_mul(r, p)
        _powcache[key] = r
    return r


def poly_mul(p, q):
    out = {}
    if len(p) * len(q) > 2000000:
        raise TooBig()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return poly_reduce(out)


def _mono_key(m):
    return (sum(e for _, e in m), m[::-1])      # graded lexicographic: a monomial order


def poly_div_exact(p, q):
    """exact multivariate division p / q (plain polynomial division, no relations); None if inexact"""
    if len(q) > 60 or len(p) > 3000 or len(q) > len(p):
        return None
    lt = max(q, key=_mono_key)
    lc = q[lt]
    ltd = dict(lt)
    rem = dict(p)
    out = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 3000:
            return None
        m = max(rem, key=_mono_key)
        d = dict(m)
        for k, e in ltd.items():
            n = d.get(k, 0) - e
            if n < 0:
                return None
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        qm = tuple(sorted(d.items()))
        qc = Q(rem[m]) / lc
        out[qm] = nrm(qc)
        for m2, c2 in q.items():
            mm = mono_mul(qm, m2)
            v = rem.get(mm, 0) - qc * c2
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
    return out


def poly_content(p):
    """(rational content with sign, monomial gcd, primitive poly)"""
    num = 0
    den = 1
    for c in p.values():
        c = Q(c)
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    it = iter(p)
    g = dict(next(it))
    for m in it:
        if not g:
            break
        d = dict(m)
        for k in list(g):
            e = min(g[k], d.get(k, 0))
            if e > 0:
                g[k] = e
            else:
                del g[k]
    cont = Q(num, den)
    lead = max(p, key=_mono_key)
    if p[lead] < 0:
        cont = -cont
    gm = tuple(sorted(g.items()))
    inv = tuple((k, -e) for k, e in gm)
    out = {}
    for m, c in p.items():
        out[mono_mul(m, inv) if inv else m] = nrm(Q(c) / cont)
    return nrm(cont), gm, out


def intern_poly(p):
    """p primitive, reduced, >= 2 terms -> base"""
    key = ("poly", frozenset(p.items()))

    def make():
        return Base("poly", "P%d" % len(T.bases), poly=dict(p))
    return T.intern(key, make)


_simpcache = {}


def norm_mono(m, c):
    """normalise sqrt exponents inside a monomial to {0,1} (needs arg as term)"""
    ch = True
    while ch:
        ch = False
        for k, e in m:
            b = T.bases[k]
            if b.kind == "sqrt" and e not in (0, 1):
                r = e % 2
                h = (e - r) // 2
                d = dict(m)
                if r:
                    d[k] = r
                else:
                    d.pop(k)
                ac, am = b.args     # term form of the argument
                m = mono_mul(tuple(sorted(d.items())), mono_pow(am, h))
                c = nrm(Q(c) * Q(ac) ** h)
                ch = True
                break
    return m, c


def simplify_sum(terms):
    """terms dict -> (coef, mono) single factored term, or None for zero."""
    if not terms:
        return None
    if len(terms) == 1:
        (m, c), = terms.items()
        m, c = norm_mono(m, c)
        return c, m
    key = (id(T), frozenset(terms.items()))
    if key in _simpcache:
        return _simpcache[key]
    # simplify the parts with different denominators first: a factor that cancels there may not be found afterwards
    groups = {}
    for m, c in terms.items():
        groups.setdefault(tuple((k, e) for k, e in m if e < 0 and T.bases[k].kind == "poly"), {})[m] = c
    if len(groups) > 1:
        new, changed = {}, False
        for g, t in groups.items():
            r = simplify_sum(t) if g and len(t) > 1 else None
            if g and len(t) > 1:
                left = () if r is None else tuple((k, e) for k, e in r[1] if e < 0 and T.bases[k].kind == "poly")
                if left != g:
                    changed = True
                    t = {} if r is None else {r[1]: r[0]}
            for m, c in t.items():
                v = new.get(m, 0) + c
                if v:
                    new[m] = nrm(v)
                else:
                    new.pop(m, None)
        if changed:
            r = simplify_sum(new)
            _simpcache[key] = r
            return r
    # common factor
    ms = list(terms)
    allk = set()
    for m in ms:
        for k, _ in m:
            allk.add(k)
    common = {}
    for k in allk:
        lo = None
        for m in ms:
            e = 0
            for kk, ee in m:
                if kk == k:
                    e = ee
                    break
            lo = e if lo is None else min(lo, e)
        if lo:
            common[k] = lo
    cm = tuple(sorted(common.items()))
    inv = tuple((k, -e) for k, e in cm)
    rest = {}
    for m, c in terms.items():
        rest[mono_mul(m, inv) if inv else m] = c
    p = poly_reduce(rest)
    if not p:
        _simpcache[key] = None
        return None
    # cancel against polynomial denominators in the common factor
    if len(p) > 1:
        changed = True
        while changed and len(p) > 1:
            changed = False
            for k, e in list(common.items()):
                b = T.bases[k]
                if e < 0 and b.kind == "poly":
                    r = poly_div_exact(p, b.poly)
                    if r is not None:
                        p = r
                        common[k] = e + 1
                        if not common[k]:
                            del common[k]
                        changed = True
                        break
        cm = tuple(sorted(common.items()))
    cont, gm, prim = poly_content(p)
    m = mono_mul(cm, gm)
    if len(prim) > 1:
        b = intern_poly(prim)
        m = mono_mul(m, ((b.id, 1),))
    m, cont = norm_mono(m, cont)
    _simpcache[key] = (cont, m)
    return cont, m


# ------------------------------------------------------------------ Sym

class Sym:
    __slots__ = ("t", "_s")

    def __init__(self, t):
        self.t = t
        self._s = False

    # -- constructors
    @staticmethod
    def const(c):
        c = nrm(c)
        return Sym({(): c} if c else {})

    @staticmethod
    def base(b):
        return Sym({((b.id, 1),): 1})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def single(self):
        """factored single term (coef, mono) or None for zero"""
        if self._s is False:
            self._s = simplify_sum(self.t)
        return self._s

    def simp(self):
        s = self.single()
        if s is None:
            return Sym({})
        r = Sym({s[1]: s[0]})
        r._s = s
        return r

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o        # nan / inf absorb
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        d = dict(a)
        for m, c in b.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = nrm(v)
            else:
                d.pop(m, None)
        if len(d) > 400:
            return Sym(d).simp()
        return Sym(d)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return (-self) + o

    def _mulc(self, c):
        if not c:
            return Sym({})
        return Sym({m: nrm(v * c) for m, v in self.t.items()})

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return mul_special(self, o)
        if not self.t or not o.t:
            return Sym({})
        a, b = self, o
        if len(a.t) == 1:
            a, b = b, a
        if len(b.t) > 1:
            if len(a.t) * len(b.t) <= 12 and _plain(a) and _plain(b):
                d = {}
                for m1, c1 in a.t.items():
                    for m2, c2 in b.t.items():
                        m = mono_mul(m1, m2)
                        v = d.get(m, 0) + c1 * c2
                        if v:
                            d[m] = nrm(v)
                        else:
                            d.pop(m, None)
                return Sym(d)
            a = a.simp()
            b = b.simp()
            if not a.t or not b.t:
                return Sym({})
        (m2, c2), = b.t.items()
        if not m2:
            return a._mulc(c2)
        d = {}
        for m1, c1 in a.t.items():
            m = mono_mul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = nrm(v)
            else:
                d.pop(m, None)
        return Sym(d)

    __rmul__ = __mul__

    def inv_nonzero(self):
        s = self.single()
        c, m = s
        return Sym({mono_pow(m, -1): nrm(1 / Q(c))})

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sx_div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sx_div(o, self)

    def __pow__(self, n, mod=None):
        return sx_pow(self, n)

    def __rpow__(self, b):
        return sx_pow(b, self)

    def __mod__(self, o):
        return sx_fmod(self, o)

    def __rmod__(self, o):
        return sx_fmod(o, self)

    def __floordiv__(self, o):
        return sx_floor(sx_div(self, lift(o)))

    def __rfloordiv__(self, o):
        return sx_floor(sx_div(lift(o), self))

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __abs__(self):
        return self if sign_of(self) >= 0 else -self

    # -- comparisons: fork
    def __lt__(self, o):
        return cmp_rel(self, o, "<")

    def __le__(self, o):
        return cmp_rel(self, o, "<=")

    def __gt__(self, o):
        return cmp_rel(self, o, ">")

    def __ge__(self, o):
        return cmp_rel(self, o, ">=")

    def __eq__(self, o):
        return cmp_rel(self, o, "==")

    def __ne__(self, o):
        r = cmp_rel(self, o, "==")
        return r if r is NotImplemented else not r

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return not cmp_rel(self, 0, "==")

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        s = self.single()
        if s is None:
            return 0.0
        if not s[1]:
            return float(s[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        v = sx_trunc(self)
        if isinstance(v, Sym):
            if v.is_const():
                return int(v.const_value())
            raise Unsupported("int() of a symbolic value")
        return v

    __index__ = __int__

    def __round__(self, n=None):
        return sx_round(self, n or 0)

    def __trunc__(self):
        return sx_trunc(self)

    def __floor__(self):
        return sx_floor(self)

    def __ceil__(self):
        return -sx_floor(-self)

    def __complex__(self):
        raise Unsupported("complex")

    # -- numpy scalar look-alike
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        return _np.dtype(float)

    def copy(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    __iter__ = None

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        if i is None or (isinstance(i, tuple) and any(x is None for x in i)):
            a = _np.empty((), dtype=object)
            a[()] = self
            return a[i]
        raise IndexError("invalid index to scalar variable.")

    def __repr__(self):
        return pretty(self)

    def __format__(self, spec):
        import engine.strings as st
        return st.format_sym(self, spec)

    def __str__(self):
        import engine.strings as st
        return st.str_sym(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")

    # numpy ufuncs on object arrays call these methods
    def sqrt(self):
        return sx_sqrt(self)

    def square(self):
        return self * self

    def sin(self):
        return sx_sin(self)

    def cos(self):
        return sx_cos(self)

    def tan(self):
        return sx_tan(self)

    def arctan2(self, o):
        return sx_atan2(self, o)

    def arctan(self):
        return sx_atan(self)

    def arcsin(self):
        return sx_asin(self)

    def arccos(self):
        return sx_acos(self)

    def deg2rad(self):
        return self * PI() / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / PI()

    degrees = rad2deg

    def exp(self):
        return sx_exp(self)

    def log(self):
        return sx_log(self)

    def floor(self):
        return sx_floor(self)

    def ceil(self):
        return -sx_floor(-self)

    def rint(self):
        return sx_round(self, 0)

    def hypot(self, o):
        return sx_sqrt(self * self + o * o)

    def is_integer(self):
        raise Unsupported("is_integer")

    def max(self, *a, **k):
        return self

    min = mean = sum = max

    def reshape(self, *s, **k):
        a = _np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*s, **k)

    def flatten(self):
        return self.reshape(1)

    ravel = flatten

    def tolist(self):
        return self


def _plain(a):
    for m in a.t:
        for k, e in m:
            if T.bases[k].kind == "poly":
                return False
    return True


def pretty(s, depth=1):
    if not s.t:
        return "0"
    out = []
    for m, c in list(s.t.items())[:12]:
        f = []
        for k, e in m:
            b = T.bases[k]
            n = b.name
            if b.kind == "poly" and depth > 0:
                n = "(" + pretty(Sym(b.poly), depth - 1) + ")"
            f.append(n + ("^%d" % e if e != 1 else ""))
        out.append("*".join(([str(c)] if (c != 1 or not f) else []) + f))
    return " + ".join(out) + (" + ..." if len(s.t) > 12 else "")


import numbers
numbers.Real.register(Sym)

INF = _np.float64("inf")
NAN = _np.float64("nan")       # numpy scalars, as the real arrays hold
_PI = math.pi
_floatcache = {}


def PI():
    return Sym.base(T.PI)


def lift_float(v):
    """exact value of a float; recognises rational multiples of pi / of 1/pi"""
    if v == 0:
        return Sym({})
    r = _floatcache.get(v)
    if r is None:
        r = ("c", nrm(Q(repr(v)) if abs(v) < 1e300 else Q(v)))
        if r[1].denominator != 1:
            for div, kind in ((v / _PI, "p"), (v * _PI, "i")):
                f = Q(div).limit_denominator(720)
                if f and f.denominator in _NICE and abs(f.numerator) < 20000 and \
                        abs(float(f) - div) <= 4e-16 * abs(div):
                    s = repr(v)
                    if len(s.replace("-", "").replace(".", "").split("e")[0].lstrip("0")) >= 14:
                        r = (kind, nrm(f))
                        break
        if len(_floatcache) > 100000:
            _floatcache.clear()
        _floatcache[v] = r
    k, c = r
    if k == "c":
        return Sym.const(c)
    if k == "p":
        return Sym({((T.PI.id, 1),): c})
    return Sym({((T.PI.id, -1),): c})


_NICE = {d for d in range(1, 721) if 720 % d == 0 or 360 % d == 0 or d in (7, 11)}


def lift(o):
    """number -> Sym (finite) | float nan/inf | NotImplemented (arrays etc.)"""
    if isinstance(o, Sym):
        return o
    t = type(o)
    if t is int or t is bool:
        return Sym.const(int(o))
    if t is float or isinstance(o, (_np.floating, float)):
        v = float(o)
        if v != v or v in (INF, -INF):
            return v
        return lift_float(v)
    if isinstance(o, (_np.integer, _np.bool_)):
        return Sym.const(int(o))
    if t is Q:
        return Sym.const(o)
    if isinstance(o, _np.ndarray) and o.ndim == 0 and o.dtype == object:
        return lift(o[()])
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return lift(o[()])
    return NotImplemented


def mul_special(a, v):
    """a: Sym, v: nan/inf"""
    if v != v:
        return NAN
    s = sign_of(a)
    if s == 0:
        return NAN
    return v if s > 0 else -v


def sx_div(a, b):
    """scalar division with numpy semantics"""
    a = lift(a)
    b = lift(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if not isinstance(b, Sym):
        if b != b or not isinstance(a, Sym):
            return NAN
        return Sym({})                     # finite / inf
    if b.is_const():
        c = b.const_value()
        if c:
            if not isinstance(a, Sym):
                return a if c > 0 else -a
            return a._mulc(1 / Q(c))
        z = True
    else:
        z = sign_in(b, {0})
    if z:
        if not isinstance(a, Sym):
            return a      # inf/0 = inf , nan/0 = nan
        s = sign_of(a)
        return NAN if s == 0 else (INF if s > 0 else -INF)
    if not isinstance(a, Sym):
        if a != a:
            return NAN
        return a if sign_of(b) > 0 else -a
    if not a.t:
        return a
    r = a * b.inv_nonzero()
    if len(a.t) > 1:
        (m, _), = r.simp().t.items() if r.single() is not None else (((), 0),)
        if not any(e < 0 and T.bases[k].kind == "poly" for k, e in m):
            return r.simp()
    return r


def sx_pow(a, n):
    if isinstance(n, Sym):
        if n.is_const():
            n = n.const_value()
        else:
            if lift(a) is not NotImplemented and not isinstance(a, Sym):
                return sx_exp(n * sx_log(a))
            raise Unsupported("symbolic exponent")
    if isinstance(n, _np.ndarray):
        return NotImplemented
    a = lift(a)
    if not isinstance(a, Sym):
        return float(a) ** float(n)
    n = Q(float(n)) if not isinstance(n, (int, Q)) else Q(n)
    if n.denominator == 2:
        r = sx_sqrt(a)
        return sx_pow(r, n.numerator)
    if n.denominator != 1:
        raise Unsupported("fractional power")
    n = n.numerator
    if n == 0:
        return Sym.const(1)
    if n < 0:
        return sx_div(Sym.const(1), sx_pow(a, -n))
    r = a
    for _ in range(n - 1):
        r = r * a
    return r


# ------------------------------------------------------------------ sign decisions

def cmp_rel(a, o, rel):
    o = lift(o)
    if o is NotImplemented:
        return NotImplemented
    if not isinstance(o, Sym):
        if o != o:
            return False
        return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False}[rel]
    d = a - o
    return sign_in(d, {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}, "==": {0}}[rel])


def sign_in(d, want):
    """is sign(d) in `want`?  decides / forks"""
    if d.is_const():
        c = d.const_value()
        return ((c > 0) - (c < 0)) in want
    s = d.single()
    if s is None:
        return 0 in want
    c, m = s
    if not m:
        return ((c > 0) - (c < 0)) in want
    return ENGINE.sign_in(c, m, frozenset(want))


def sign_of(d):
    """full sign: forks until known"""
    if sign_in(d, {0}):
        return 0
    return 1 if sign_in(d, {1}) else -1


# ------------------------------------------------------------------ sqrt

def _squarefree(n):
    """n>0 int -> (a,b) with n=a^2*b"""
    a = 1
    b = n
    i = 2
    while i * i <= b and i < 2000:
        while b % (i * i) == 0:
            b //= i * i
            a *= i
        i += 1
    r = math.isqrt(b)
    if r * r == b:
        return a * r, 1
    return a, b


def sx_sqrt(x):
    x = lift(x)
    if not isinstance(x, Sym):
        if x != x or x < 0:
            return NAN
        return x
    s = x.single()
    if s is None:
        return Sym({})
    if sign_in(x, {-1}):
        return NAN
    if sign_in(x, {0}):
        return Sym({})
    c, m = s
    c = Q(c)
    # collect squares outside, rest inside (made polynomial)
    outside = Sym.const(1)
    inside_m = {}
    for k, e in m:
        b = T.bases[k]
        h, r = divmod(e, 2)
        if b.kind == "sqrt" and False:
            pass
        if h:
            bs = Sym.base(b)
            sg = sign_of(bs)
            f = bs if sg >= 0 else -bs
            outside = outside * Sym({mono_pow(((k, 1),), h): 1}) * (1 if (sg >= 0 or h % 2 == 0) else -1)
        if r:
            inside_m[k] = 1
    neg = c < 0
    c = abs(c)
    # absorb signs: for each inside base known negative flip
    a1, b1 = _squarefree(c.numerator * c.denominator)
    outside = outside * Sym.const(Q(a1, c.denominator))
    inside_c = b1
    # orient bases to positive where sign already known
    inside = {(): inside_c}
    im = tuple(sorted(inside_m.items()))
    sgn = -1 if neg else 1
    if not im:
        if inside_c == 1:
            return outside
        b = sqrt_atom({(): inside_c}, (inside_c, ()))
        return outside * Sym.base(b)
    tot = sgn
    polyt = {im: inside_c * sgn}
    p = poly_reduce(dict(polyt))
    cand = try_square_root(p)
    if cand is not None:
        return outside * cand
    # canonical: primitive polynomial or monomial
    if len(p) > 1:
        cont, gm, prim = poly_content(p)
        bb = intern_poly(prim)
        argm = mono_mul(gm, ((bb.id, 1),))
        argc = cont
    else:
        (argm, argc), = p.items()
    ac = Q(argc)
    if abs(ac) != 1:
        a2, b2 = _squarefree(abs(ac.numerator) * ac.denominator)
        outside = outside * Sym.const(Q(a2, ac.denominator))
        nb = b2 * (1 if ac > 0 else -1)
        p = {mm: nrm(Q(v) / ac * nb) for mm, v in p.items()}
        argc = nb
    b = sqrt_atom(p, (argc, argm))
    return outside * Sym.base(b)


def sqrt_atom(p, term):
    key = ("sqrt", frozenset(p.items()))

    def make():
        return Base("sqrt", "sqrt%d" % len(T.bases), args=term, lo=0, poly=dict(p))
    return T.intern(key, make)


def try_square_root(p):
    """recognise p == q^2 for simple q: univariate/multivariate perfect squares via known candidates"""
    # quick structural test: try extracting sqrt by leading-term method
    q = poly_sqrt(p)
    if q is not None:
        s = Sym(q)
        return s if sign_of(s) >= 0 else -s
    # modulo sin/cos relations: 1 - cos^2 = sin^2
    for k, e in {kk for m in p for kk in m}:
        b = T.bases[k]
        if b.kind == "cos":
            # rewrite cos^2 -> 1 - sin^2 and retry
            alt = _swap_cos(p, b)
            if alt is not None:
                q = poly_sqrt(alt)
                if q is not None:
                    s = Sym(q)
                    return s if sign_of(s) >= 0 else -s
    return None


def _swap_cos(p, cosb):
    sinb = cosb.extra
    out = {}
    work = list(p.items())
    while work:
        m, c = work.pop()
        d = dict(m)
        e = d.get(cosb.id, 0)
        if e >= 2:
            if e == 2:
                d.pop(cosb.id)
            else:
                d[cosb.id] = e - 2
            r = tuple(sorted(d.items()))
            work.append((r, c))
            work.append((mono_mul(r, ((sinb.id, 2),)), -c))
        else:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out if out else None


def poly_sqrt(p):
    """exact square root of a polynomial with rational coefficients, or None"""
    if len(p) > 400 or not p:
        return None
    lead = max(p, key=_mono_key)
    c = Q(p[lead])
    if c <= 0 or any(e % 2 for _, e in lead):
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    lm = tuple((k, e // 2) for k, e in lead)
    lc = Q(n, d)
    q = {lm: nrm(lc)}
    rem = dict(p)
    rem.pop(lead)
    ld = dict(lm)
    steps = 0
    while rem:
        steps += 1
        if steps > 60:
            return None
        m = max(rem, key=_mono_key)
        dd = dict(m)
        for k, e in ld.items():
            v = dd.get(k, 0) - e
            if v < 0:
                return None
            if v:
                dd[k] = v
            else:
                dd.pop(k, None)
        nm = tuple(sorted(dd.items()))
        if nm in q or _mono_key(nm) >= _mono_key(lm):
            return None
        nc = Q(rem[m]) / (2 * lc)
        # rem -= 2*nc*nm*q + nc^2 nm^2
        for m2, c2 in list(q.items()):
            mm = mono_mul(m2, nm)
            v = rem.get(mm, 0) - 2 * nc * c2
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        mm = mono_pow(nm, 2)
        v = rem.get(mm, 0) - nc * nc
        if v:
            rem[mm] = v
        else:
            rem.pop(mm, None)
        q[nm] = nrm(nc)
    return q


# ------------------------------------------------------------------ trigonometry
# an angle is split into: rational multiple of pi  +  sum  mult_i * unit_i
# unit kinds: ('deg', base id of variable): pi*var/180 ; ('inv', base id of inverse-trig atom) ;
#             ('opq', frozenset of terms): anything else, as a whole

def split_angle(x, again=True):
    const = Q(0)
    units = []          # (unitkey, multiplier Fraction)
    other = {}
    for m, c in x.t.items():
        if m == ((T.PI.id, 1),):
            const += Q(c)
            continue
        if len(m) == 1 and m[0][1] == 1 and T.bases[m[0][0]].kind == "inv":
            units.append((("inv", m[0][0]), Q(c)))
            continue
        d = dict(m)
        if d.get(T.PI.id) == 1 and len(d) == 2:
            (k,) = [k for k in d if k != T.PI.id]
            b = T.bases[k]
            if d[k] == 1 and b.kind == "var":
                if b.integer:
                    if Q(c) % 2 == 0:
                        continue            # multiple of 2*pi
                else:
                    units.append((("deg", k), Q(c) * 180))
                    continue
        other[m] = c
    if other:
        o = Sym(other)
        s = o.single()
        if s is not None:
            cc, mm = s
            q = Q(cc)
            # a lone pi*var (or a plain sum of such terms) left over after simplification
            if again and all(e > 0 for _, e in mm):
                ps = [k for k, e in mm if T.bases[k].kind == "poly"]
                if not ps:
                    ex = {mm: cc}
                elif len(ps) == 1 and dict(mm)[ps[0]] == 1:
                    rest = tuple((k, e) for k, e in mm if k != ps[0])
                    ex = {mono_mul(m2, rest): nrm(Q(c2) * q) for m2, c2 in T.bases[ps[0]].poly.items()}
                else:
                    ex = None
                if ex is not None:
                    c3, u3 = split_angle(Sym(ex), False)
                    if c3 or any(k[0] != "opq" for k, _ in u3):
                        return const + c3, units + u3
            units.append((("opq", mm), q))
    # opaque units: the whole simplified monomial with multiplier = coefficient
    return const, units


def unit_atoms(key, mult):
    """(sin,cos) Sym of mult*unit"""
    if key[0] == "inv":
        b = T.bases[key[1]]
        s1, c1 = b.extra
        if mult.denominator != 1:
            # half of an inverse-trig angle: opaque
            return opaque_pair(("opq", ((key[1], 1),)), mult)
        return multiple(s1, c1, mult.numerator)
    return opaque_pair(key, mult)


def opaque_pair(key, mult):
    g = T.granularity.get(_gkey(key))
    if g is None:
        g = mult if key[0] == "opq" else Q(1, mult.denominator)
        g = abs(g)
        T.granularity[_gkey(key)] = g
    k = mult / g
    if k.denominator != 1:
        # need a finer unit
        ng = Q(math.gcd(mult.numerator * g.denominator, g.numerator * mult.denominator),
               g.denominator * mult.denominator)
        T.granularity[_gkey(key)] = ng
        raise Restart()
    s, c = trig_atoms(key, g)
    return multiple(s, c, k.numerator)


def _gkey(key):
    """granularity survives a table reset, so it is keyed by names"""
    if key[0] in ("deg",):
        return ("deg", T.bases[key[1]].name)
    return ("opq", _mono_name(key[1]))


def _mono_name(m):
    return tuple(sorted(((base_name(T.bases[k]), e) for k, e in m), key=repr))


def base_name(b):
    """a name that is stable across table resets"""
    if b.kind == "poly" or b.kind == "sqrt":
        return (b.kind, tuple(sorted((repr(_mono_name(m)), str(c)) for m, c in b.poly.items())))
    return b.name


def trig_atoms(key, g):
    k = ("trig", key, g)
    nm = ("%s" % T.bases[key[1]].name) if key[0] == "deg" else "u%d" % (abs(hash(repr(_mono_name(key[1])))) % 100000)
    if key[0] == "deg":
        angle = Sym({tuple(sorted([(T.PI.id, 1), (key[1], 1)])): nrm(g / 180)})
    else:
        angle = Sym({key[1]: nrm(g)})
    cb = T.intern(("cos",) + k, lambda: Base("cos", "cos(%s*%s)" % (g, nm), args=(angle,), lo=-1, hi=1))
    sb = T.intern(("sin",) + k, lambda: Base("sin", "sin(%s*%s)" % (g, nm), args=(angle,), lo=-1, hi=1))
    cb.extra = sb
    sb.extra = cb
    return Sym.base(sb), Sym.base(cb)


def multiple(s, c, n):
    if n < 0:
        a, b = multiple(s, c, -n)
        return -a, b
    if n == 0:
        return Sym({}), Sym.const(1)
    if n == 1:
        return s, c
    if n > 16:
        raise Unsupported("large angle multiple")
    rs, rc = s, c
    for _ in range(n - 1):
        rs, rc = (rs * c + rc * s), (rc * c - rs * s)
        rs, rc = Sym(poly_try(rs)), Sym(poly_try(rc))
    return rs, rc


def poly_try(x):
    if all(e > 0 for m in x.t for _, e in m):
        return poly_reduce(x.t)
    return x.t


_SQ = {}


def const_pair(r):
    """sin, cos of r*pi"""
    r = r % 2
    table = {Q(0): (0, 1), Q(1, 2): (1, 0), Q(1): (0, -1), Q(3, 2): (-1, 0)}
    if r in table:
        a, b = table[r]
        return Sym.const(a), Sym.const(b)
    q = int(r * 2)
    rem = r - Q(q, 2)          # in (0, 1/2)
    h = Q(1, 2)
    if rem == Q(1, 6):
        s, c = Sym.const(h), sx_sqrt(Sym.const(3)) * Sym.const(h)
    elif rem == Q(1, 3):
        s, c = sx_sqrt(Sym.const(3)) * Sym.const(h), Sym.const(h)
    elif rem == Q(1, 4):
        s = c = sx_sqrt(Sym.const(2)) * Sym.const(h)
    else:
        v = float(rem) * math.pi
        eps = Q(1, 10 ** 12)
        cb = T.intern(("cos", "const", rem), lambda: Base("cos", "cos(%s pi)" % rem, args=(Sym({((T.PI.id, 1),): nrm(rem)}),),
                                                          lo=Q(math.cos(v)) - eps, hi=Q(math.cos(v)) + eps))
        sb = T.intern(("sin", "const", rem), lambda: Base("sin", "sin(%s pi)" % rem, args=(Sym({((T.PI.id, 1),): nrm(rem)}),),
                                                          lo=Q(math.sin(v)) - eps, hi=Q(math.sin(v)) + eps))
        cb.extra = sb
        sb.extra = cb
        s, c = Sym.base(sb), Sym.base(cb)
    for _ in range(q):
        s, c = c, -s
    return s, c


def sincos(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return NAN, NAN
    key = frozenset(x.t.items())
    cache = ENGINE.trigcache
    r = cache.get(key)
    if r is not None:
        return r
    const, units = split_angle(x)
    s, c = const_pair(const)
    for k, mlt in units:
        s1, c1 = unit_atoms(k, mlt)
        s, c = s * c1 + c * s1, c * c1 - s * s1
        s, c = Sym(poly_try(s)), Sym(poly_try(c))
    cache[key] = (s, c)
    if not x.is_const() or x.t:
        ENGINE.known_angles.append((x, s, c))
    return s, c


def sx_sin(x):
    return sincos(x)[0]


def sx_cos(x):
    return sincos(x)[1]


def sx_tan(x):
    s, c = sincos(x)
    if not isinstance(s, Sym):
        return NAN
    # the tangent of an arctan2 is the quotient of its arguments
    xs = x.simp() if isinstance(x, Sym) else None
    for sg in (1, -1):
        if xs is not None and _is_atan2(xs * sg):
            (m, _), = xs.t.items()
            ya, xa = T.bases[m[0][0]].args
            if isinstance(ya, Sym) and isinstance(xa, Sym):
                ENGINE.assume_nonzero(xa)
                return sx_div(ya * sg, xa)
    # tan at an exact odd multiple of pi/2 never occurs in floating point: excluded
    if not c.is_const():
        ENGINE.assume_nonzero(c)
    return sx_div(s, c)


def inv_atom(name, args, s, c, lo, hi):
    """inverse-trig atom with algebraic sine / cosine"""
    if not isinstance(s, Sym) or not isinstance(c, Sym):
        raise Infeasible()
    key = ("inv", name) + tuple(frozenset(a.simp().t.items()) for a in args)
    b = T.intern(key, lambda: Base("inv", "%s%d" % (name, len(T.bases)), args=tuple(args), extra=(s, c)))
    b.extra = (s, c)
    ENGINE.known_angles.append((Sym.base(b), s, c))
    ENGINE.inv_facts(b, name, args, lo, hi)
    return Sym.base(b)


def is_zero(x):
    try:
        return x.single() is None
    except TooBig:
        return False


def wrap_angle(A, sgn, half_open=True):
    """representative of A (+ pi if sgn<0) in (-pi, pi]"""
    p = PI()
    B = A if sgn > 0 else A + p
    n = 0
    while sign_in(B - p, {1}):
        B = B - 2 * p
        n += 1
        if n > 8:
            raise Unsupported("angle wrap")
    while sign_in(B + p, {-1, 0}):
        B = B + 2 * p
        n += 1
        if n > 8:
            raise Unsupported("angle wrap")
    return B


def sx_atan2(y, x):
    y = lift(y)
    x = lift(x)
    if not isinstance(y, Sym) or not isinstance(x, Sym):
        if (not isinstance(y, Sym) and y != y) or (not isinstance(x, Sym) and x != x):
            return NAN
        fy = y if not isinstance(y, Sym) else float(sign_of(y))
        fx = x if not isinstance(x, Sym) else float(sign_of(x))
        return lift_float(math.atan2(fy, fx)) if math.atan2(fy, fx) else Sym({})
    if is_zero(y) and is_zero(x):
        return Sym({})
    ys, xs = y.simp(), x.simp()
    if ys.is_const() or xs.is_const() or True:
        if is_zero(ys):
            return Sym({}) if sign_in(xs, {0, 1}) else PI()
    # known angle?
    for A0, s0, c0 in list(ENGINE.known_angles):
        if not _bounded_angle(A0):
            continue
        for j, (A, s, c) in enumerate(((A0, s0, c0), (-A0, -s0, c0), (PI() * Q(1, 2) - A0, c0, s0))):
            try:
                if not is_zero((ys * c - xs * s)):
                    continue
                proj = (ys * s + xs * c)
                sg = proj.single()
            except TooBig:
                continue
            if sg is None:
                continue
            ss = sign_of(proj)
            if ss == 0:
                return Sym({})
            if ss > 0 and _is_atan2(A0):
                # principal value already: A itself, and -A except on the negative axis
                if A is A0:
                    return A
                if j == 1 and not sign_in(ys, {0}):
                    return A
            return wrap_angle(A, ss)
    if not ENGINE.known_signs(xs) <= {1} and sign_in(ys, {0}):
        return Sym({}) if sign_in(xs, {0, 1}) else PI()
    if is_zero(xs):
        return PI() * Q(1, 2) if sign_in(ys, {1}) else PI() * Q(-1, 2)
    q = xs * xs + ys * ys
    ENGINE.know(q, frozenset((1,)))         # one of the two is not zero here
    r = sx_sqrt(q)
    s = sx_div(ys, r)
    c = sx_div(xs, r)
    return inv_atom("atan2", (ys, xs), s, c, Q(-1), Q(1))


def _is_atan2(A):
    """A is one arctan2 value, hence in (-pi, pi]"""
    if len(A.t) != 1:
        return False
    (m, c), = A.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return False
    b = T.bases[m[0][0]]
    return b.kind == "inv" and str(b.name).startswith("atan2")


def _bounded_angle(A):
    """only angles whose size is bounded can be wrapped"""
    for m, c in A.t.items():
        for k, e in m:
            b = T.bases[k]
            if b.kind in ("inv", "pi"):
                continue
            if e < 0:
                return ENGINE.angle_ok(A)
            if b.kind == "var" and (b.lo is None or b.hi is None):
                return ENGINE.angle_ok(A)
            if b.kind == "poly":
                return ENGINE.angle_ok(A)
    return True


def sx_atan(u):
    u = lift(u)
    if not isinstance(u, Sym):
        if u != u:
            return NAN
        return PI() * (Q(1, 2) if u > 0 else Q(-1, 2))
    s = u.single()
    if s is None:
        return Sym({})
    # u = n/d : atan(u) = atan2(n*sgn(d), |d|)
    c, m = s
    num = {k: e for k, e in m if e > 0}
    den = {k: -e for k, e in m if e < 0}
    d = Sym({tuple(sorted(den.items())): 1})
    n = Sym({tuple(sorted(num.items())): c})
    if den and sign_of(d) < 0:
        n, d = -n, -d
    return sx_atan2(n, d)


def sx_asin(u):
    u = lift(u)
    if not isinstance(u, Sym):
        return NAN
    if is_zero(u):
        return Sym({})
    us = u.simp()
    dd = Sym.const(1) - us * us
    if 1 in ENGINE.known_signs(u - 1) or -1 in ENGINE.known_signs(u + 1):
        if sign_in(dd, {-1}):
            return NAN
    h = PI() * Q(1, 2)
    for A, s, c in list(ENGINE.known_angles):
        for B, sB, cB in ((A, s, c), (h - A, c, s)):
            for sg in (1, -1):
                if is_zero(u - sB * sg) and _bounded_angle(B):
                    BB = B * sg
                    # fold into [-pi/2, pi/2] using the sign of the cosine
                    if sign_in(cB, {0, 1}):
                        R = wrap_angle(BB, 1)
                    else:
                        R = wrap_angle(PI() - BB, 1)
                    return R
    if -1 in ENGINE.known_signs(dd):
        ENGINE.assume_sign(dd, frozenset((0, 1)))
    cc = sx_sqrt(dd)
    if not isinstance(cc, Sym):
        raise Infeasible()
    return inv_atom("asin", (us,), us, cc, Q(-1, 2), Q(1, 2))


def sx_acos(u):
    a = sx_asin(u)
    if not isinstance(a, Sym):
        return a
    return PI() * Q(1, 2) - a


# ------------------------------------------------------------------ exp / log / rounding

def fn_atom(name, arg, lo=None, hi=None):
    a = arg.simp()
    key = ("fn", name, frozenset(a.t.items()))
    b = T.intern(key, lambda: Base("fn", "%s%d" % (name, len(T.bases)), args=(a,), lo=lo, hi=hi))
    return b


def sx_exp(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return math.exp(x) if x == x and x < 700 else (NAN if x != x else (INF if x > 0 else 0.0))
    if is_zero(x):
        return Sym.const(1)
    b = fn_atom("exp", x)
    ENGINE.exp_facts(b, x)
    return Sym.base(b)


def sx_log(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return NAN if (x != x or x < 0) else INF
    if x.is_const() and x.const_value() == 1:
        return Sym({})
    if sign_in(x, {-1}):
        return NAN
    if sign_in(x, {0}):
        return -INF
    s = x.single()
    if len(s[1]) == 1 and s[0] == 1 and s[1][0][1] == 1:
        b = T.bases[s[1][0][0]]
        if b.kind == "fn" and b.name.startswith("exp"):
            return b.args[0]
    if len(s[1]) > 1 or (len(s[1]) == 1 and (s[0] != 1 or s[1][0][1] != 1)):
        # log of a product of positive factors
        fs = [Sym.base(T.bases[k]) for k, e in s[1]]
        if s[0] > 0 and all(sign_in(f, {1}) for f in fs):
            r = Sym({})
            if s[0] != 1:
                b = fn_atom("log", Sym.const(s[0]))
                ENGINE.log_facts(b, Sym.const(s[0]))
                r = Sym.base(b)
            for (k, e), f in zip(s[1], fs):
                r = r + sx_log(f) * e
            return r
    b = fn_atom("log", x)
    ENGINE.log_facts(b, x)
    return Sym.base(b)


def sx_floor(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return x
    s = x.single()
    if s is None:
        return Sym({})
    if x.is_const():
        return Sym.const(math.floor(Q(x.const_value())))
    if _is_integer(x):
        return x
    return ENGINE.floor_atom(x)


def _is_integer(x):
    for m, c in x.t.items():
        if Q(c).denominator != 1:
            return False
        for k, e in m:
            if e < 0 or not T.bases[k].integer:
                return False
    return True


def sx_trunc(x):
    x = lift(x)
    if not isinstance(x, Sym):
        if x != x:
            raise ValueError("cannot convert float NaN to integer")
        raise OverflowError("cannot convert float infinity to integer")
    if sign_in(x, {0, 1}):
        return sx_floor(x)
    return -sx_floor(-x)


def sx_round(x, n=0):
    """round half to even is abstracted: |result - x| <= 1/2 ulp of the last place, result integer multiple"""
    x = lift(x)
    if not isinstance(x, Sym):
        return x
    sc = 10 ** n
    y = x * sc
    if _is_integer(y):
        return x
    r = ENGINE.round_atom(y)
    return r / sc


def sx_fmod(a, b):
    """python / numpy float modulo for a finite non-zero modulus"""
    if isinstance(b, _np.ndarray) or isinstance(a, _np.ndarray):
        return NotImplemented
    a = lift(a)
    b = lift(b)
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        if isinstance(a, Sym):
            if b != b:
                return NAN
            return a if (sign_of(a) >= 0) == (b > 0) else b
        return NAN
    if sign_in(b, {0}):
        return NAN
    q = sx_floor(sx_div(a, b))
    return a - q * b


def _broadcasting(op, f):
    """a number from numpy (np.float64) takes lists as operands, element by element"""
    def g(self, o):
        if type(o) in (list, tuple):
            from .rawnp import np as rnp
            a = rnp.empty(rnp.shape(rnp.array(o, dtype=object)), dtype=object)
            b = rnp.array(o, dtype=object)
            for i in rnp.ndindex(*a.shape):
                a[i] = getattr(self, op)(lift(b[i]))
            return a
        return f(self, o)
    return g


for _op in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__lt__", "__le__", "__gt__", "__ge__"):
    if _op in Sym.__dict__:
        setattr(Sym, _op, _broadcasting(_op, Sym.__dict__[_op]))
