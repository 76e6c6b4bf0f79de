"""C12: great-circle distance, bearing and movement."""
import numpy as np
from .common import *

META = dict(bounds="latitude in [-89.9, 89.9] deg, longitude in [-180, 180] deg (differences of longitude up to 360 deg), distances 1 m to half the circumference, "
                   "bearing [-180, 180] deg, heights within +-10 km; single points and batches of 2; one start with several distances; targets at the poles and opposite points left out",
            assumptions=["moving and measuring back follows from the two instances families: both are shown equal to the same position vectors"])
R = 6371000


def geo(ctx, i, h=False):
    p = [ctx.deg("lat%s" % i, -89.9, 89.9, prefer=(-80, 80)), ctx.deg("lon%s" % i, -180, 180)]
    if h:
        p.append(ctx.real("h%s" % i, -10000, 10000))
    return p


def other(ctx, p, i="", sign=0):
    """any other position, written as an offset; not the same and not the opposite point"""
    dl = ctx.deg("dlat%s" % i, -89.9, 89.9)
    if sign > 0:
        dg = ctx.deg("dlon%s" % i, 0.00001, 89.99)
    elif sign < 0:
        dg = ctx.deg("dlon%s" % i, -89.99, -0.00001)
    else:
        dg = ctx.deg("dlon%s" % i, -180, 180)
    q = [p[0] + 2 * dl, p[1] + 2 * dg]
    ctx.pos(89.9 - q[0], 89.9 + q[0])
    ctx.pos(ctx.cosd(p[0]), ctx.cosd(q[0]))
    c = dot(nvec(ctx, p[0], p[1]), nvec(ctx, q[0], q[1]))
    ctx.pos(1 - c, 1 + c)
    return q


def nvec(ctx, lat, lon):
    s, c = ctx.sind, ctx.cosd
    return vec(ctx, [c(lat) * c(lon), c(lat) * s(lon), s(lat)])


def frame(ctx, lat, lon):
    s, c = ctx.sind, ctx.cosd
    return vec(ctx, [-s(lon), c(lon), 0]), vec(ctx, [-s(lat) * c(lon), -s(lat) * s(lon), c(lat)])


def check_distance(ctx, got, p, q):
    cth = dot(nvec(ctx, p[0], p[1]), nvec(ctx, q[0], q[1]))
    ctx.eq("cos(distance / R) is the angle between the positions", np.cos(got / R), cth, tol=1e-7)
    if not ctx.symbolic:
        ctx.ge0("distance is not negative", got)
        ctx.ge0("distance is at most half the circumference", R * 3.15 - got)
    else:
        ctx.ge0("distance is not negative", got)


def h_distance(ctx, form):
    ct = ctx.ct
    a = geo(ctx, 0)
    b = other(ctx, a)
    if form == "single":
        check_distance(ctx, ct.getDistance(a, b), a, b)
    elif form == "symmetric":
        x, y = ct.getDistance(a, b), ct.getDistance(b, a)
        ctx.eq("the distance is symmetric", x, y)
        ctx.eq("the distance to itself is zero", ct.getDistance(a, a), 0)
    elif form == "batch":
        c = geo(ctx, 2)
        d = other(ctx, c, 2)
        got = ct.getDistance([a, c], [b, d])
        ctx.prove("shape", np.shape(got) == (2,), str(np.shape(got)))
        check_distance(ctx, got[0], a, b)
        check_distance(ctx, got[1], c, d)
    elif form == "broadcast":
        c = other(ctx, a, 2)
        got = ct.getDistance(a, [b, c])
        check_distance(ctx, got[0], a, b)
        check_distance(ctx, got[1], a, c)


def h_height(ctx, form):
    ct = ctx.ct
    a = geo(ctx, 0, True)
    b = other(ctx, a) + [ctx.real("h1", -10000, 10000)]
    flat = ct.getDistance(a[:2], b[:2])
    if form == "both":
        got = ct.getDistance(a, b)
        ctx.eq("heights enter as in a right triangle", got * got, flat * flat + (a[2] - b[2]) * (a[2] - b[2]))
        ctx.ge0("distance is not negative", got)
        ctx.eq("symmetric with heights", got, ct.getDistance(b, a))
    else:
        ctx.eq("a height on one side only is ignored", ct.getDistance(a, b[:2]), flat)
        ctx.eq("a height on the other side only is ignored", ct.getDistance(a[:2], b), flat)
    ctx.eq("vertical distance", ct.getDistance(a, [a[0], a[1], a[2] + ctx.real("dh", 0, 1000)]), ctx.real("dh", 0, 1000))


def check_bearing(ctx, got, p, q):
    E, N = frame(ctx, p[0], p[1])
    n = nvec(ctx, q[0], q[1])
    e, no = dot(n, E), dot(n, N)
    ctx.eq("the bearing points to the target (perpendicular part)", ctx.sind(got) * no - ctx.cosd(got) * e, 0)
    ctx.ge0("the bearing points to the target (forward part)", ctx.sind(got) * e + ctx.cosd(got) * no)


def h_bearing(ctx, form, sign=1):
    ct = ctx.ct
    a = geo(ctx, 0)
    b = other(ctx, a, "", sign)
    if form == "single":
        g = ct.getBearing(a, b)
        check_bearing(ctx, g, a, b)
    elif form == "height":
        check_bearing(ctx, ct.getBearing(a + [ctx.real("h", 0, 100)], b + [ctx.real("h2", 0, 100)]), a, b)
    elif form == "batch":
        c = other(ctx, a, 2, -sign)
        g = ct.getBearing([a, b], [b, c])
        ctx.prove("shape", np.shape(g) == (2,), str(np.shape(g)))
        ctx.eq("a batch gives the results of its members", g, vec(ctx, [ct.getBearing(a, b), ct.getBearing(b, c)]))
    elif form == "one":
        c = other(ctx, a, 2, -sign)
        g = ct.getBearing(a, [b, c])
        ctx.eq("one start, many targets", g, vec(ctx, [ct.getBearing(a, b), ct.getBearing(a, c)]))
    elif form == "north":
        d = ctx.deg("d", 0.01, 80)
        lat = ctx.deg("lat0", -80, -0.1)
        ctx.eq("north is 0", ct.getBearing([lat, a[1]], [lat + d, a[1]]), 0)
        ctx.eq("south is 180", abs(ct.getBearing([lat + d, a[1]], [lat, a[1]])), 180)


def dist(ctx, i=""):
    # as an angle: distance = R * delta
    return ctx.deg("delta%s" % i, 0.00001, 179.9, prefer=(0.01, 170))


def check_move(ctx, start, delta, beta, got):
    n = nvec(ctx, start[0], start[1])
    E, N = frame(ctx, start[0], start[1])
    s, c = ctx.sind, ctx.cosd
    t = n * c(delta) + (N * c(beta) + E * s(beta)) * s(delta)
    ctx.eq("the target lies in the distance and direction", nvec(ctx, got[0], got[1]), t, tol=1e-9)


def off_pole(ctx, start, delta, beta):
    """the target is not a pole"""
    s, c = ctx.sind, ctx.cosd
    z = s(start[0]) * c(delta) + c(start[0]) * s(delta) * c(beta)
    ctx.pos(1 - z * z)


def h_move(ctx, form):
    ct = ctx.ct
    a = geo(ctx, 0)
    d, b = dist(ctx), ctx.deg("beta", -180, 180)
    rad = ctx.pi / 180
    off_pole(ctx, a, d, b)
    if form == "single":
        got = ct.moveDistance(a, R * d * rad, b)
        ctx.prove("shape", np.shape(got) == (2,), str(np.shape(got)))
        check_move(ctx, a, d, b, got)
    elif form == "height":
        h = ctx.real("h", -1000, 10000)
        got = ct.moveDistance(a + [h], (R + h) * d * rad, b)
        ctx.prove("shape", np.shape(got) == (3,), str(np.shape(got)))
        check_move(ctx, a, d, b, got)
        ctx.eq("the height stays", got[2], h)
    elif form in ("batch", "batchheight", "onebearing", "many"):
        # a batch is the collection of the single movements (each of which is decided by the other instances)
        a2 = a if form == "many" else geo(ctx, 1)
        d2, b2 = dist(ctx, 2), b if form == "onebearing" else ctx.deg("beta2", -180, 180)
        off_pole(ctx, a2, d2, b2)
        r1 = r2 = R
        if form == "batchheight":
            h, h2 = ctx.real("h", -1000, 10000), ctx.real("h2", -1000, 10000)
            a, a2 = a + [h], a2 + [h2]
            r1, r2 = R + h, R + h2
        one = [ct.moveDistance(a, r1 * d * rad, b), ct.moveDistance(a2, r2 * d2 * rad, b2)]
        got = ct.moveDistance(a if form == "many" else [a, a2], [r1 * d * rad, r2 * d2 * rad], b if form == "onebearing" else [b, b2])
        ctx.prove("shape", np.shape(got) == (2, len(a)), str(np.shape(got)))
        ctx.eq("a batch moves each point", got, stack(ctx, one))
    elif form == "zero":
        got = ct.moveDistance(a, 0, b)
        ctx.eq("no movement", got, vec(ctx, a))


def instances(tier):
    out = []
    for f in ("single", "symmetric", "batch", "broadcast"):
        out.append(dict(name="distance-" + f, fn=h_distance, args=dict(form=f)))
    for f in ("both", "one"):
        out.append(dict(name="height-" + f, fn=h_height, args=dict(form=f)))
    for f in ("single", "height", "batch", "one", "north"):
        for s in (1, -1):
            out.append(dict(name="bearing-%s-%s" % (f, "east" if s > 0 else "west"), fn=h_bearing, args=dict(form=f, sign=s)))
    for f in ("single", "height", "batch", "batchheight", "many", "onebearing", "zero"):
        out.append(dict(name="move-" + f, fn=h_move, args=dict(form=f)))
    return out
