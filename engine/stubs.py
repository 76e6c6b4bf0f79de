"""Models of library functions whose C / Fortran implementation cannot be executed symbolically."""
from .rawnp import np as rnp
import numpy as np

from . import sym as S
from .sym import Sym, lift

HINTS = []          # terms proposed as preimages of inverted functions (see ctx.hint)


def _fit(ys, xs):
    """the polynomial P with P(ys[i]) = xs[i] (up to rounding); its coefficients are the decimals they stand for (9 digits)"""
    from fractions import Fraction as Q
    n = min(len(ys), 9)
    idx = sorted({round(i * (len(ys) - 1) / (n - 1)) for i in range(n)})
    at = [ys[i] for i in idx]
    # Newton's divided differences as monomial coefficients, for every term of the nodes
    C = [dict() for _ in idx]
    for term in {t for x in xs for t in x.t}:
        c = [Q(xs[i].t.get(term, 0)) for i in idx]
        for j in range(1, len(c)):
            for i in range(len(c) - 1, j - 1, -1):
                c[i] = (c[i] - c[i - 1]) / (at[i] - at[i - j])
        p = [c[-1]]
        for i in range(len(c) - 2, -1, -1):
            p = [a - at[i] * b for a, b in zip([Q(0)] + p, p + [Q(0)])]
            p[0] += c[i]
        p = [Q("%.9f" % float(v)) for v in p]
        for y, x in zip(ys, xs):
            v = Q(0)
            for b in reversed(p):
                v = v * y + b
            if abs(v - Q(x.t.get(term, 0))) > Q(1, 10 ** 9):
                return None
        for k, v in enumerate(p):
            if v:
                C[k][term] = S.nrm(v)
    return [Sym(c) for c in C]


def _horner(C, u):
    r = C[-1]
    for c in reversed(C[:-1]):
        r = r * u + c
    return r


class Spline:
    """Interpolation through (x_i, y_i).

    If the abscissae are the values of a polynomial P at the (concrete) ordinates, which are not further apart than 0.03, and the interpolant
    is at least cubic, it is modelled by the exact
    inverse of P (the interpolation error of the real spline is covered by the tolerance of the replay); otherwise by an
    uninterpreted function of the argument whose samples are computed with the real implementation.
    """

    def __init__(self, orig, x, y, *a, **k):
        self.orig, self.a, self.k = orig, a, k
        self.cubic = self._cubic(getattr(orig, "__name__", ""), a, k)
        self.x = [lift(v) for v in np.asarray(x, dtype=object).ravel()]
        self.y = [lift(v) for v in np.asarray(y, dtype=object).ravel()]
        self.P = None

    @staticmethod
    def _cubic(name, a, k):
        """does the interpolant pass through the nodes with an error of at least fourth order?"""
        if name == "InterpolatedUnivariateSpline":
            return k.get("k", a[2] if len(a) > 2 else 3) >= 3
        if name == "UnivariateSpline":
            return k.get("k", a[2] if len(a) > 2 else 3) >= 3 and k.get("s", a[3] if len(a) > 3 else None) == 0
        if name == "interp1d":
            return k.get("kind", a[0] if a else "linear") in ("cubic", 3, 5)
        return name in ("CubicSpline", "make_interp_spline") and k.get("k", a[0] if a and name == "make_interp_spline" else 3) >= 3

    def poly(self):
        if self.P is None and not self.cubic:
            self.P = False
        if self.P is None:
            self.P = False
            from fractions import Fraction as Q
            ok = len(self.y) > 3 and all(isinstance(v, Sym) and v.is_const() for v in self.y) and all(isinstance(v, Sym) for v in self.x)
            if ok:
                ys = [Q("%.12g" % float(Q(v.const_value()))) for v in self.y]
                steps = [abs(b - a) for a, b in zip(ys, ys[1:])]
                if len(set(ys)) == len(ys) and max(steps) <= Q(3, 100):
                    C = _fit(ys, self.x)
                    if C is not None:
                        self.P = lambda u: _horner(C, u)
                        self.rng = (min(ys), max(ys))
        return self.P

    def one(self, r):
        r = lift(r)
        if not isinstance(r, Sym):
            return r if r != r else S.NAN
        P = self.poly()
        if P:
            if S.is_zero(P(r) - r):
                return r
            for u in HINTS:
                if S.is_zero(P(u) - r) and S.sign_in(u - self.rng[0], {0, 1}) and S.sign_in(u - self.rng[1], {-1, 0}):
                    return u
        key = ("spline",) + tuple(frozenset(v.simp().t.items()) for v in self.x + self.y + [r])
        n = len(self.x)

        def ev(*vals):
            out = []
            for i in range(len(vals[-1])):
                try:
                    out.append(float(self.orig([v[i] for v in vals[:n]], [v[i] for v in vals[n:2 * n]], *self.a, **self.k)(vals[-1][i])))
                except Exception:
                    out.append(float("nan"))
            return rnp.array(out)
        b = S.T.intern(key, lambda: S.Base("fn", "spline%d" % len(S.T.bases), args=tuple(self.x + self.y + [r]), extra=dict(eval=ev)))
        return Sym.base(b)

    def __call__(self, v, *a, **k):
        from .npshim import emap
        return emap(self.one, v)


def install():
    import scipy.interpolate as si
    from . import npshim as N

    def wrap(name):
        orig = getattr(si, name)

        class W(orig if isinstance(orig, type) else object):
            def __new__(cls, x, y, *a, **k):
                if N.active():
                    return Spline(orig, x, y, *a, **k)
                return orig(x, y, *a, **k)
        W.__name__ = name
        setattr(si, name, W)
    for n in ("InterpolatedUnivariateSpline", "UnivariateSpline", "interp1d", "CubicSpline", "make_interp_spline", "PchipInterpolator", "Akima1DInterpolator"):
        if hasattr(si, n):
            wrap(n)


class SymNorm:
    """frozen normal distribution with symbolic parameters"""

    def __init__(self, loc=0, scale=1):
        self.loc, self.scale = loc, scale

    @staticmethod
    def term(x, loc, scale):
        if any(isinstance(v, float) and v != v for v in (x, loc, scale)):
            return S.NAN
        if S.sign_in(lift(scale), {-1, 0}):
            return S.NAN
        if any(isinstance(v, float) and v in (float("inf"), -float("inf")) for v in (x, loc)):
            return -S.INF
        d = S.sx_div(lift(x) - lift(loc), lift(scale))
        c = S.sx_log(2 * S.PI())
        return d * d * S.nrm(S.Q(-1, 2)) - S.sx_log(lift(scale)) - c * S.nrm(S.Q(1, 2))

    def logpdf(self, x):
        from .npshim import emap
        return emap(self.term, x, self.loc, self.scale)

    def pdf(self, x):
        from .npshim import emap
        return emap(lambda *a: S.sx_exp(self.term(*a)), x, self.loc, self.scale)

    def mean(self):
        return self.loc

    def std(self):
        return self.scale


class SymUniform:
    def __init__(self, loc=0, scale=1):
        self.loc, self.scale = loc, scale


def install_stats():
    from scipy import stats
    from . import npshim as N
    norm, uniform = stats.norm, stats.uniform
    freeze, logpdf, pdf = norm.freeze, norm.logpdf, norm.pdf

    def frozen(*a, **k):
        if N.has_sym(list(a) + list(k.values())):
            return SymNorm(*a, **k)
        f = freeze(*a, **k)
        lp, p = f.logpdf, f.pdf
        f.logpdf = lambda x: SymNorm(*a, **k).logpdf(x) if N.has_sym(x) else lp(x)
        f.pdf = lambda x: SymNorm(*a, **k).pdf(x) if N.has_sym(x) else p(x)
        return f
    norm.freeze = frozen
    norm.logpdf = lambda x, *a, **k: SymNorm(*a, **k).logpdf(x) if N.has_sym([x] + list(a) + list(k.values())) else logpdf(x, *a, **k)
    norm.pdf = lambda x, *a, **k: SymNorm(*a, **k).pdf(x) if N.has_sym([x] + list(a) + list(k.values())) else pdf(x, *a, **k)
    ufreeze = uniform.freeze
    uniform.freeze = lambda *a, **k: SymUniform(*a, **k) if N.has_sym(list(a) + list(k.values())) else ufreeze(*a, **k)
