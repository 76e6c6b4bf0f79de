"""Random numbers as inputs: every draw is a variable of the check (symbolic, or a replayed number)."""
import contextlib
import numpy as np
from scipy import stats


def shape_of(size, *args):
    if size is None:
        return np.broadcast_shapes(*[np.shape(a) for a in args]) if args else ()
    return (size,) if isinstance(size, (int, np.integer)) else tuple(size)


class Source:
    """z(i): standard draw, u(i): uniform draw from [0, 1), k(i, n): integer below n"""

    def __init__(self, ctx, pre="", z=None, u=None):
        self.ctx, self.pre = ctx, pre
        self.zs, self.us, self.ks, self.ts = [], [], [], []
        self.fz, self.fu = z, u

    def z(self):
        i = len(self.zs)
        v = self.fz(i) if self.fz else self.ctx.real("%sz%d" % (self.pre, i), -5, 5)
        self.zs.append(v)
        return v

    def u(self):
        i = len(self.us)
        v = self.fu(i) if self.fu else self.ctx.real("%su%d" % (self.pre, i), 0, 0.999999)
        self.us.append(v)
        return v

    def k(self, n):
        v = self.ctx.choice("%sk%d" % (self.pre, len(self.ks)), int(n))
        self.ks.append((v, int(n)))
        return v

    def trunc(self, a, b):
        """a draw between the bounds a and b"""
        c = self.ctx
        i = len(self.ts)
        fa, fb = [not (isinstance(x, float) and np.isinf(x)) for x in (a, b)]
        if fa and fb:
            w = c.real("%sw%d" % (self.pre, i), 0, 1)
            v = a + (b - a) * w
        else:
            w = c.real("%sw%d" % (self.pre, i), 0, 5)
            v = a + w if fa else (b - w if fb else c.real("%sv%d" % (self.pre, i), -5, 5))
        self.ts.append(v)
        return v


def fill(ctx, shape, fn):
    if shape == ():
        v = fn(())
        return np.float64(v) if isinstance(v, (int, float)) else v
    out = np.empty(shape, dtype=object if ctx.symbolic else float)
    for i in np.ndindex(*shape):
        out[i] = fn(i)
    return out


class Frozen:
    def __init__(self, kind, src, args, kw, orig):
        self.kind, self.src, self.args, self.kw, self.orig = kind, src, args, kw, orig

    def rvs(self, size=None, random_state=None):
        return draw(self.kind, self.src, size, *self.args, **self.kw)

    def __getattr__(self, n):
        return getattr(self.orig(*self.args, **self.kw), n)


def el(x, i, shape):
    return np.broadcast_to(np.asarray(x, dtype=object), shape)[i]


def draw(kind, src, size, *args, **kw):
    ctx = src.ctx
    if kind == "truncnorm":
        names = ("a", "b", "loc", "scale")
    else:
        names = ("loc", "scale")
    p = dict(loc=0, scale=1)
    p.update(dict(zip(names, args)))
    p.update(kw)
    sh = shape_of(size, *p.values())

    def one(i):
        q = {n: el(v, i, sh) for n, v in p.items()}
        if kind == "norm":
            return q["loc"] + q["scale"] * src.z()
        if kind == "uniform":
            return q["loc"] + q["scale"] * src.u()
        return q["loc"] + q["scale"] * src.trunc(q["a"], q["b"])
    return fill(ctx, sh, one)


@contextlib.contextmanager
def draws(ctx, **k):
    src = Source(ctx, **k)
    saved = []

    def patch(obj, name, f):
        d = vars(obj)
        saved.append((obj, name, d.get(name), name in d))
        setattr(obj, name, f)
    R = np.random
    patch(R, "normal", lambda loc=0, scale=1, size=None: draw("norm", src, size, loc, scale))
    patch(R, "randn", lambda *s: draw("norm", src, s if s else None))
    patch(R, "standard_normal", lambda size=None: draw("norm", src, size))
    patch(R, "rand", lambda *s: draw("uniform", src, s if s else None))
    for n in ("random", "random_sample", "ranf", "sample"):
        patch(R, n, lambda size=None: draw("uniform", src, size))
    patch(R, "uniform", lambda low=0, high=1, size=None: draw("uniform", src, size, low, high - low))

    def randint(low, high=None, size=None, dtype=int):
        if size is not None:
            raise NotImplementedError("randint with a size")
        lo, hi = (0, low) if high is None else (low, high)
        return lo + src.k(hi - lo)
    patch(R, "randint", randint)

    def choice(a, size=None, replace=True, p=None):
        if size is not None or p is not None:
            raise NotImplementedError("choice with a size")
        return src.k(a) if isinstance(a, (int, np.integer)) else a[src.k(len(a))]
    patch(R, "choice", choice)
    for name in ("norm", "uniform", "truncnorm"):
        d = getattr(stats, name)
        old = d.freeze
        patch(d, "freeze", lambda *a, _n=name, _o=old, **k: Frozen(_n, src, a, k, _o))
        patch(d, "rvs", lambda *a, _n=name, size=None, random_state=None, **k: draw(_n, src, size, *a, **k))
    try:
        yield src
    finally:
        for obj, name, v, had in reversed(saved):
            if had:
                setattr(obj, name, v)
            else:
                delattr(obj, name)
