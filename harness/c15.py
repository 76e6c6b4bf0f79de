"""C15: points and distances of two lines."""
import numpy as np
from .common import *

META = dict(bounds="points in +-1000, direction vectors with components in +-100 (any length that is not 0), lines with an angle of more than 1e-8 rad and exactly parallel lines; single lines and batches of 2 and 3, "
                   "2 and 3 dimensions; polylines of 2 to 3 points",
            assumptions=["every pair of non-parallel lines is written by the two closest points, and a position on each line"])


def v3(ctx, name, n=3, lo=-100, hi=100):
    return vec(ctx, [ctx.real("%s%d" % (name, i), lo, hi, prefer=(lo / 20, hi / 20)) for i in range(n)])


def lines(ctx, i="", sign=1, dim=3, v1=None):
    """two skew lines: mid point, p1, v1, p2, v2, distance and normal"""
    v1 = v3(ctx, "v%s_" % i, dim) if v1 is None else v1
    v2 = v3(ctx, "w%s_" % i, dim)
    M = v3(ctx, "m%s_" % i, dim, -1000, 1000)
    uv = dot(v1, v2)
    ctx.pos(dot(v1, v1), dot(v2, v2), dot(v1, v1) * dot(v2, v2) - uv * uv)
    if not ctx.symbolic:
        ctx.assume(dot(v1, v1) * dot(v2, v2) - uv * uv > 1e-3 * dot(v1, v1) * dot(v2, v2) and dot(v1, v1) > 1e-6 and dot(v2, v2) > 1e-6)
    if dim == 3:
        n = cross(ctx, v1, v2)
        ctx.pos(dot(n, n))
        ctx.pos(norm(ctx, n) - 1e-8 * norm(ctx, v1) * norm(ctx, v2))
        ctx.pos(norm(ctx, n) - 1e-8)
        h = ctx.real("h%s" % i, 0.0001, 100) if sign > 0 else ctx.real("h%s" % i, -100, -0.0001) if sign < 0 else 0
    else:
        n, h = M * 0, 0
    return M, n, h, v1, v2


def place(ctx, L, i="", s=None, t=None):
    M, n, h, v1, v2 = L
    s = ctx.real("s%s" % i, -100, 100, prefer=(-5, 5)) if s is None else s
    t = ctx.real("t%s" % i, -100, 100, prefer=(-5, 5)) if t is None else t
    return M + h * n - s * v1, M - h * n - t * v2


def distance(ctx, L):
    M, n, h, v1, v2 = L
    return 0 if isinstance(h, int) and h == 0 else 2 * h * norm(ctx, n) if (h > 0) else -2 * h * norm(ctx, n)


def h_two(ctx, dim, sign, what):
    ray = ctx.ct.ray
    L = lines(ctx, "", sign, dim)
    p1, p2 = place(ctx, L)
    M, n, h, v1, v2 = L
    if what == "intersection":
        got = ray.intersectionOfTwoLines(p1, v1, p2, v2)
        ctx.prove("shape", np.shape(got) == (dim,), str(np.shape(got)))
        ctx.eq("midway on the shortest connection", got, M)
        ctx.eq("the order of the lines does not matter", ray.intersectionOfTwoLines(p2, v2, p1, v1), M)
    elif what == "distance":
        got = ray.distanceOfTwoLines(p1, v1, p2, v2)
        ctx.prove("a number", np.shape(got) == (), str(np.shape(got)))
        ctx.eq("length of the shortest connection", got, distance(ctx, L))
        ctx.ge0("not negative", got)
        ctx.eq("the order of the lines does not matter", ray.distanceOfTwoLines(p2, v2, p1, v1), distance(ctx, L))
    elif what == "closest":
        # the closest point of line 1 to the closest point of line 2 is that of the shortest connection
        got = ray.getClosestPointFromLine(p1, v1, M - h * n)
        ctx.eq("foot of the shortest connection", got, M + h * n)


def h_batch(ctx, dim, what, signs):
    """one origin per side, several directions"""
    ray = ctx.ct.ray
    N = len(signs)
    p1, p2 = v3(ctx, "p", dim, -1000, 1000), v3(ctx, "q", dim, -1000, 1000)
    V, W = [], []
    for i in range(N):
        L = lines(ctx, i, 1, dim)
        V.append(L[3])
        W.append(L[4])
        if dim == 3:
            nd = dot(L[1], p2 - p1)
            ctx.nonzero(nd)
            (ctx.pos if signs[i] > 0 else ctx.neg)(nd)
    f = ray.intersectionOfTwoLines if what == "intersection" else ray.distanceOfTwoLines
    got = f(p1, stack(ctx, V), p2, stack(ctx, W))
    ctx.prove("shape", np.shape(got) == ((N, dim) if what == "intersection" else (N,)), str(np.shape(got)))
    for i in range(N):
        ctx.eq("each pair on its own", got[i], f(p1, V[i], p2, W[i]))
        if what == "distance":
            n = cross(ctx, V[i], W[i])
            d = dot(n, p2 - p1)
            ctx.eq("distance along the common perpendicular", got[i] * got[i] * dot(n, n), d * d)
        else:
            # line through the point that is perpendicular to both meets both: the point is midway
            x = got[i]
            n2 = (dot(V[i], V[i]) * dot(W[i], W[i]) - dot(V[i], W[i]) ** 2)
            a, b = p1 - x, p2 - x
            # the remainders of both connections after removing the parts along the lines are opposite and perpendicular
            def foot(p, v, o, w):
                r = o - p
                s = (dot(r, v) * dot(w, w) - dot(r, w) * dot(v, w)) / n2
                return p + s * v
            ctx.eq("midway on the shortest connection", x, (foot(p1, V[i], p2, W[i]) + foot(p2, W[i], p1, V[i])) / 2)


def h_mixed(ctx, par, what, factor):
    """a batch in which some lines are exactly parallel: the others keep their result"""
    ray = ctx.ct.ray
    p1, p2 = v3(ctx, "p", 3, -1000, 1000), v3(ctx, "q", 3, -1000, 1000)
    ctx.pos(dot(p2 - p1, p2 - p1))
    V, W = [], []
    for i, isp in enumerate(par):
        if isp:
            v = v3(ctx, "v%d_" % i)
            ctx.pos(dot(v, v))
            V.append(v)
            W.append(v * factor)
        else:
            L = lines(ctx, i, 1)
            ctx.pos(dot(L[1], p2 - p1))
            V.append(L[3])
            W.append(L[4])
    f = ray.intersectionOfTwoLines if what == "intersection" else ray.distanceOfTwoLines
    got = f(p1, stack(ctx, V), p2, stack(ctx, W))
    for i, isp in enumerate(par):
        if not isp:
            ctx.eq("lines that are not parallel keep their result", got[i], f(p1, V[i], p2, W[i]))
        elif what == "distance":
            c = cross(ctx, p2 - p1, V[i])
            ctx.eq("distance of parallel lines", got[i] * got[i] * dot(V[i], V[i]), dot(c, c), tol=1e-5)
            ctx.ge0("not negative", got[i])
        elif what == "intersection":
            ctx.is_nan("parallel lines have no point", got[i])


def h_parallel(ctx, what, factor):
    ray = ctx.ct.ray
    v = v3(ctx, "v")
    ctx.pos(dot(v, v))
    if not ctx.symbolic:
        ctx.assume(dot(v, v) > 1e-6)
    p1 = v3(ctx, "p", 3, -1000, 1000)
    # any second point: along the line and a vector perpendicular to it
    w = v3(ctx, "w")
    d = cross(ctx, v, w)
    ctx.pos(dot(d, d))
    p2 = p1 + ctx.real("s", -100, 100, prefer=(-5, 5)) * v + d
    if what == "distance":
        got = ray.distanceOfTwoLines(p1, v, p2, v * factor)
        ctx.eq("distance of parallel lines", got, norm(ctx, d), tol=1e-5)
        ctx.ge0("not negative", got)
    else:
        ctx.is_nan("parallel lines have no point", ray.intersectionOfTwoLines(p1, v, p2, v * factor))


def h_degenerate(ctx, which):
    ray = ctx.ct.ray
    v, p1, w = v3(ctx, "v"), v3(ctx, "p", 3, -1000, 1000), v3(ctx, "w")
    d = cross(ctx, v, w)
    ctx.pos(dot(v, v), dot(d, d))
    p2 = p1 + ctx.real("s", -100, 100, prefer=(-5, 5)) * v + d
    z = np.zeros(3)
    if which == "both":
        got = ray.distanceOfTwoLines(p1, z, p2, z)
        ctx.eq("distance of two points", got * got, dot(p2 - p1, p2 - p1), tol=1e-5)
        return
    a, b = (z, v) if which == "first" else (v, z)
    ctx.eq("distance of a point and a line", ray.distanceOfTwoLines(p1, a, p2, b), norm(ctx, d), tol=1e-5)


def h_scale(ctx, what, s1, s2):
    """the length and sign of the direction vectors do not matter"""
    ray = ctx.ct.ray
    L = lines(ctx, "", 1)
    p1, p2 = place(ctx, L)
    f = ray.intersectionOfTwoLines if what == "intersection" else ray.distanceOfTwoLines
    a = ctx.real("k1", 0.00001, 1000, prefer=(0.01, 20)) * s1
    b = ctx.real("k2", 0.00001, 1000, prefer=(0.01, 20)) * s2
    v, w = L[3] * a, L[4] * b
    nn = cross(ctx, v, w)
    ctx.pos(norm(ctx, nn) - 1e-8 * norm(ctx, v) * norm(ctx, w))
    if not ctx.symbolic:
        ctx.assume(dot(v, v) > 1e-12 and dot(w, w) > 1e-12)
    got = f(p1, v, p2, w)
    ctx.eq("same result for vectors of any length", got, L[0] if what == "intersection" else distance(ctx, L), tol=1e-5)


def h_closest(ctx, form, dim):
    ray = ctx.ct.ray
    O = v3(ctx, "o", dim, -1000, 1000)
    N = 1 if form in ("single", "11") else 2
    V, P, E = [], [], []
    for i in range(N):
        v, x = v3(ctx, "v%d_" % i, dim), v3(ctx, "x%d_" % i, dim)
        ctx.pos(dot(v, v))
        if not ctx.symbolic:
            ctx.assume(dot(v, v) > 1e-6)
        s = ctx.real("s%d" % i, -100, 100, prefer=(-5, 5))
        d = cross(ctx, v, x) if dim == 3 else vec(ctx, [-v[1], v[0]]) * x[0]
        V.append(v)
        E.append(O + s * v)
        P.append(O + s * v + d)
    if form == "single":
        got = ray.getClosestPointFromLine(O, V[0], P[0])
        ctx.prove("shape", np.shape(got) == (dim,), str(np.shape(got)))
        ctx.eq("foot of the perpendicular", got, E[0])
        if dim == 3:
            ctx.eq("distance of a point to a line", ray.distanceLinePoint(O, V[0], P[0]), norm(ctx, P[0] - E[0]), tol=1e-5)
        return
    got = ray.getClosestPointFromLine(O, stack(ctx, V), stack(ctx, P))
    ctx.prove("shape", np.shape(got) == (N, dim), str(np.shape(got)))
    ctx.eq("foot of the perpendicular", got, stack(ctx, E))


def h_onepoint(ctx):
    """several lines, one point"""
    ray = ctx.ct.ray
    O, x = v3(ctx, "o", 3, -1000, 1000), v3(ctx, "x", 3, -1000, 1000)
    V = [v3(ctx, "v%d_" % i) for i in range(2)]
    for v in V:
        ctx.pos(dot(v, v))
        if not ctx.symbolic:
            ctx.assume(dot(v, v) > 1e-6)
    got = ray.getClosestPointFromLine(O, stack(ctx, V), x)
    for i, v in enumerate(V):
        ctx.eq("foot of the perpendicular", got[i], O + v * (dot(x - O, v) / dot(v, v)))


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k))
    for what in ("intersection", "distance", "closest"):
        for sign in (1, -1, 0):
            add("two-%s-%d" % (what, sign), h_two, dim=3, sign=sign, what=what)
    add("two-intersection-2d", h_two, dim=2, sign=0, what="intersection")
    for what in ("intersection", "distance"):
        for signs in ((1,), (1, -1)) + (((-1, 1, 1),) if what == "distance" or tier == "thorough" else ()):
            add("batch-%s-%d" % (what, len(signs)), h_batch, dim=3, what=what, signs=signs)
        for n, par in enumerate(((1, 0), (0, 1), (1, 1))):
            for f in (1, -2, 0.5):
                if n == 0 or f == -2 or tier == "thorough":
                    add("mixed-%s-%d%d-%s" % ((what,) + par + (f,)), h_mixed, par=par, what=what, factor=f)
        for f in (1, -1, 2, -0.5):
            add("parallel-%s-%s" % (what, f), h_parallel, what=what, factor=f)
        for s1, s2 in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
            add("scale-%s-%d-%d" % (what, s1, s2), h_scale, what=what, s1=s1, s2=s2)
    add("batch-intersection-2d", h_batch, dim=2, what="intersection", signs=(1, 1))
    for w in ("first", "second", "both"):
        add("degenerate-" + w, h_degenerate, which=w)
    for form in ("single", "11", "2"):
        for dim in (2, 3):
            add("closest-%s-%dd" % (form, dim), h_closest, form=form, dim=dim)
    add("closest-one-point", h_onepoint)
    return out
