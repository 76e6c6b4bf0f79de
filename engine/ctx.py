"""The two execution contexts of a harness: symbolic and concrete (replay)."""
import math
import random

import numpy as np


class Violated(BaseException):
    def __init__(self, label, info=""):
        self.label = label
        self.info = info


class Skip(BaseException):
    """assumption not met by this concrete input"""


class CtxBase:
    symbolic = False

    def vec(self, name, n, lo=None, hi=None, **k):
        return [self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]

    def arr(self, name, shape, lo=None, hi=None, **k):
        n = int(np.prod(shape))
        v = self.vec(name, n, lo, hi, **k)
        a = np.empty(n, dtype=object if self.symbolic else float)
        for i in range(n):
            a[i] = v[i]
        return a.reshape(shape)

    def hint(self, u):
        """u is a possible preimage of an inverted function (symbolic model only)"""

    def deg(self, name, lo=-360, hi=360, **k):
        return self.real(name, lo, hi, **k)

    def sind(self, d):
        return np.sin(np.deg2rad(d))

    def cosd(self, d):
        return np.cos(np.deg2rad(d))


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, engine, ct, tier):
        self.e = engine
        self.ct = ct
        self.tier = tier
        from . import sym as S
        self.S = S

    @property
    def pi(self):
        return self.S.PI()

    def real(self, name, lo=None, hi=None, prefer=None):
        from fractions import Fraction as Q
        q = lambda x: None if x is None else (Q(repr(x)) if isinstance(x, float) else Q(x))
        b = self.S.T.intern(("var", name), lambda: self.S.Base("var", name, lo=q(lo), hi=q(hi), extra=dict(prefer=prefer)))
        return self.S.Sym.base(b)

    def num(self, name, lo, hi):
        """symbolic integer-valued real"""
        b = self.S.T.intern(("var", name), lambda: self.S.Base("var", name, lo=lo, hi=hi, integer=True, extra=dict(prefer=None)))
        return self.S.Sym.base(b)

    def const(self, v):
        return self.S.lift(v)

    def hint(self, u):
        from . import stubs
        stubs.HINTS.append(u)

    def choice(self, name, n):
        """symbolic selector in 0..n-1: forks"""
        e = self.e
        pos = len(e.trace)
        if pos < len(e.prefix):
            i = e.prefix[pos]
        else:
            i = 0
            for j in range(1, n):
                e.alts.append((pos, j))
        e.trace.append(i)
        b = self.S.T.intern(("var", "#" + name), lambda: self.S.Base("var", "#" + name, lo=0, hi=n - 1, integer=True, extra=dict(prefer=None)))
        e.sampcache.pop(b.id, None)
        self.choices[name] = i
        return i

    def assume(self, c):
        if not c:
            raise self.S.Infeasible()

    def _restrict(self, s, want):
        S, e = self.S, self.e
        s = S.lift(s)
        if not isinstance(s, S.Sym):
            raise S.Infeasible()
        x = s.single()
        if x is None:
            if 0 not in want:
                raise S.Infeasible()
            return
        c, m = x
        poss = e.mono_possible(c, m)
        if poss <= want:
            return
        und = []
        cur = 1 if c > 0 else -1
        for k, ex in m:
            b = S.T.bases[k]
            bs = e.base_possible(b)
            if ex < 0:
                bs = bs - {0}
            eff = frozenset(v * v for v in bs) if ex % 2 == 0 else bs
            if len(eff) > 1:
                und.append((b, ex, bs))
            else:
                cur *= next(iter(eff))
        if len(und) == 1:
            b, ex, bs = und[0]
            yes = frozenset(v for v in bs if (cur * (v * v if ex % 2 == 0 else v)) in want)
            if not yes:
                raise S.Infeasible()
            e.set_sign(b, yes)
            return
        if not S.sign_in(s, set(want)):
            raise S.Infeasible()

    def pos(self, *xs):
        for x in xs:
            self._restrict(x, frozenset((1,)))

    def nonneg(self, *xs):
        for x in xs:
            self._restrict(x, frozenset((0, 1)))

    def nonzero(self, *xs):
        for x in xs:
            self._restrict(x, frozenset((-1, 1)))

    def neg(self, *xs):
        for x in xs:
            self._restrict(x, frozenset((-1,)))

    def reached(self, label):
        self.e.reached.append(label)

    # -- obligations
    def eq(self, label, a, b, tol=None):
        S = self.S
        self.e.reached.append(label)
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.e.fail_here(label, "shape %s != %s" % (a.shape, b.shape))
            return False
        ok = True
        for i in np.ndindex(*a.shape):
            x, y = S.lift(a[i]), S.lift(b[i])
            if x is NotImplemented or y is NotImplemented:
                if a[i] is b[i] or (a[i] == b[i]):
                    continue
                self.e.fail_here(label, "values %r %r" % (a[i], b[i]))
                ok = False
                continue
            fx, fy = isinstance(x, S.Sym), isinstance(y, S.Sym)
            if not fx or not fy:
                if not fx and not fy and (x == y or (x != x and y != y)):
                    self.e.stats.obligations += 1
                    self.e.stats.queries += 1
                    self.e.stats.unsat += 1
                    self.e.stats.trivial += 1
                    continue
                self.e.fail_here(label, "[%s] %r vs %r" % (i, x, y))
                ok = False
                continue
            if self.e.prove_sign(label, x - y, frozenset((0,))) is False:
                ok = False
        return ok

    def is_nan(self, label, a):
        self.e.reached.append(label)
        for x in np.asarray(a, dtype=object).ravel():
            if not (not isinstance(x, self.S.Sym) and x != x):
                self.e.fail_here(label, "expected NaN, got %r" % (x,))
                return False
        self.e.stats.obligations += 1
        self.e.stats.queries += 1
        self.e.stats.unsat += 1
        return True

    def finite(self, label, a):
        self.e.reached.append(label)
        for x in np.asarray(a, dtype=object).ravel():
            if not isinstance(x, self.S.Sym) and not np.isfinite(float(x)):
                self.e.fail_here(label, "expected finite, got %r" % (x,))
                return False
        self.e.stats.obligations += 1
        self.e.stats.queries += 1
        self.e.stats.unsat += 1
        return True

    def ge0(self, label, x, tol=None):
        self.e.reached.append(label)
        x = self.S.lift(x)
        if not isinstance(x, self.S.Sym):
            if x >= 0:
                return True
            return self.e.fail_here(label, "not >=0: %r" % x)
        return self.e.prove_sign(label, x, frozenset((0, 1)))

    def gt0(self, label, x, tol=None):
        self.e.reached.append(label)
        x = self.S.lift(x)
        if not isinstance(x, self.S.Sym):
            if x > 0:
                return True
            return self.e.fail_here(label, "not >0: %r" % x)
        return self.e.prove_sign(label, x, frozenset((1,)))

    def prove(self, label, cond, info=""):
        """cond: python bool (already forked)"""
        self.e.reached.append(label)
        if cond:
            self.e.stats.obligations += 1
            self.e.stats.queries += 1
            self.e.stats.unsat += 1
            self.e.stats.trivial += 1
            return True
        self.e.fail_here(label, info)
        return False

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            return self.prove(label, True)
        except Exception as ex:
            return self.prove(label, False, "raised %r" % ex)
        return self.prove(label, False, "no exception")


class ConcCtx(CtxBase):
    symbolic = False

    def __init__(self, assign, ct, tier, seed=0):
        self.a = assign
        self.ct = ct
        self.tier = tier
        self.rng = random.Random(seed)
        self.log = []
        self.pi = math.pi
        self.nob = 0

    def _get(self, name, lo, hi, prefer=None):
        if name in self.a:
            return float(self.a[name])
        l = lo if lo is not None else -50
        h = hi if hi is not None else 50
        if lo is not None and hi is None:
            h = lo + 50
        if hi is not None and lo is None:
            l = hi - 50
        if prefer is not None:
            l, h = prefer
        v = self.rng.uniform(float(l), float(h))
        if self.rng.random() < 0.3:
            v = min(max(round(v), float(l)), float(h))
        self.a[name] = v
        return v

    def real(self, name, lo=None, hi=None, prefer=None):
        v = self._get(name, lo, hi, prefer)
        if lo is not None and v < float(lo) - 1e-12 * max(1, abs(float(lo))):
            raise Skip()
        if hi is not None and v > float(hi) + 1e-12 * max(1, abs(float(hi))):
            raise Skip()
        return v

    def num(self, name, lo, hi):
        if name not in self.a:
            self.a[name] = self.rng.randint(lo, hi)
        return float(round(self.a[name]))

    def const(self, v):
        return v

    def choice(self, name, n):
        k = "#" + name
        if k not in self.a:
            self.a[k] = self.rng.randrange(n)
        v = int(self.a[k])
        if not 0 <= v < n:
            raise Skip()
        return v

    def assume(self, c):
        if not c:
            raise Skip()

    def pos(self, *xs):
        for x in xs:
            if not x > 0:
                raise Skip()

    def nonneg(self, *xs):
        for x in xs:
            if not x >= 0:
                raise Skip()

    def nonzero(self, *xs):
        for x in xs:
            if not x != 0:
                raise Skip()

    def neg(self, *xs):
        for x in xs:
            if not x < 0:
                raise Skip()

    def reached(self, label):
        pass

    def _tol(self, tol):
        return 1e-6 if tol is None else tol

    def eq(self, label, a, b, tol=None):
        self.nob += 1
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            if a is b or a == b:
                return True
            raise Violated(label, "%r vs %r" % (a, b))
        if a.shape != b.shape:
            raise Violated(label, "shape %s vs %s" % (a.shape, b.shape))
        t = self._tol(tol)
        with np.errstate(all="ignore"):
            d = np.abs(a - b) <= t * (1 + np.maximum(np.abs(a), np.abs(b)))
            d = d | (np.isnan(a) & np.isnan(b)) | (a == b)
        if not np.all(d):
            raise Violated(label, "%s vs %s" % (a.tolist(), b.tolist()))
        return True

    def is_nan(self, label, a):
        self.nob += 1
        if not np.all(np.isnan(np.asarray(a, dtype=float))):
            raise Violated(label, "expected NaN got %s" % np.asarray(a).tolist())
        return True

    def finite(self, label, a):
        self.nob += 1
        if not np.all(np.isfinite(np.asarray(a, dtype=float))):
            raise Violated(label, "expected finite got %s" % np.asarray(a).tolist())
        return True

    def ge0(self, label, x, tol=None):
        self.nob += 1
        if not x >= -self._tol(tol):
            raise Violated(label, "%r < 0" % x)
        return True

    def gt0(self, label, x, tol=None):
        self.nob += 1
        if not x > -self._tol(tol):
            raise Violated(label, "%r <= 0" % x)
        return True

    def prove(self, label, cond, info=""):
        self.nob += 1
        if not cond:
            raise Violated(label, info)
        return True

    def raises(self, label, exc, fn):
        self.nob += 1
        try:
            fn()
        except exc:
            return True
        except Exception as ex:
            raise Violated(label, "raised %r" % ex)
        raise Violated(label, "no exception")
