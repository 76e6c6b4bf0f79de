"""C22: log-probabilities of observations."""
from fractions import Fraction
import numpy as np
from scipy import stats
from .common import *
from .c07 import EXT, INT, new_value, build, update
from . import c12
from .c27 import R as R_EARTH

META = dict(bounds="one or two objects / landmarks / horizon points / point pairs per call, up to three calls; observed values, uncertainties (number, one per object, a fit parameter with a changing value), heights, lengths, points and poses symbolic "
                   "(object heights and lengths: camera with symbolic position, focal lengths and centre, looking with tilt 60 deg or any tilt); horizon: images of 2 lines; landmarks: camera with fixed orientation, symbolic position and pixel, uncertainties concrete",
            stubs=["scipy.stats.norm logpdf as its formula"],
            assumptions=["object height / length, image horizon, nearest point and ray of the camera are those that the camera's own methods return (C17, C27, C15, C02)",
                         "landmarks: the sum goes over 1000 points in steps along the ray, from two standard deviations before to two behind the nearest point, as implemented (there is no other documentation)"])


class Var:
    """like a fit parameter: an uncertainty that is fitted, too"""

    def __init__(self, value, name="v"):
        self.value, self.__name__ = value, name


def start(ctx, tilt=60.):
    m = {n: new_value(ctx, n, 0) for n in EXT + INT if n != "focallength_px"}
    m.update(tilt_deg=tilt, roll_deg=0., heading_deg=0., image_width_px=4, image_height_px=2, elevation_m=ctx.real("ele", 1, 1000))
    return m


def pixel(ctx, m, i, updown):
    """a pixel below (1) or above (-1) the optical centre"""
    return vec(ctx, [m["center_x_px"] + m["focallength_x_px"] * ctx.real("ua%s" % i, 0.05, 0.5), m["center_y_px"] + m["focallength_y_px"] * ctx.real("ub%s" % i, 0.01, 0.4) * updown])


def uncertainty(ctx, how, N, lo=0.01, hi=10):
    if how == "number":
        u = ctx.real("sigma", lo, hi)
        return u, [u] * N
    if how == "int":
        return 2, [2] * N
    if how == "each":
        us = [ctx.real("sigma%d" % i, lo, hi) for i in range(N)]
        return vec(ctx, us), us
    u = ctx.real("sigma", lo, hi)
    return Var(np.array(u) if not ctx.symbolic else u), [u] * N


def mean(ctx, how, N, lo=0.1, hi=100):
    if how == "number":
        u = ctx.real("mu", lo, hi)
        return u, [u] * N
    us = [ctx.real("mu%d" % i, lo, hi) for i in range(N)]
    return vec(ctx, us), us


def term(x, mu, s):
    return stats.norm(mu, s).logpdf(x)


def equals(ctx, label, got, exp):
    if isinstance(exp, float) and exp != exp:
        ctx.prove("an impossible observation has zero probability", isinstance(got, float) and got == -np.inf, str(got))
    else:
        ctx.eq(label, got, exp, tol=1e-6)


def size(ctx, fresh, what, a, b, Z):
    """positive heights and lengths, so that no cases have to be told apart"""
    return fresh.getObjectHeight(a, b) if what == "height" else fresh.getObjectLength(a, b, Z=0 if Z is None else Z)


def add(ctx, cam, what, a, b, mu, sigma, Z, **k):
    if what == "height":
        cam.addObjectHeightInformation(a, b, mu, sigma, **k)
    elif Z is None:
        cam.addObjectLengthInformation(a, b, mu, sigma, **k)
    else:
        cam.addObjectLengthInformation(a, b, mu, sigma, Z=Z, **k)


def h_object(ctx, what, N, mhow, shape="N", uhow="number", z=False, change=None):
    m = start(ctx)
    cam, fresh = build(ctx, "rect", "none", "thr", m), build(ctx, "rect", "none", "thr", m)
    feet = [pixel(ctx, m, "f%d" % i, 1) for i in range(N)]
    head = [pixel(ctx, m, "h%d" % i, -1 if what == "height" else 1) for i in range(N)]
    Z = ctx.real("Z", -10, 0) if z else None
    sigma, sig = uncertainty(ctx, uhow, N)
    mu, mus = mean(ctx, mhow, N)
    A, B = (feet[0], head[0]) if shape == "one" else (stack(ctx, feet), stack(ctx, head))
    ctx.eq("nothing observed yet", cam.getLogProbability(), 0)
    add(ctx, cam, what, A, B, mu, sigma, Z)
    if isinstance(sigma, Var):
        ctx.prove("an uncertainty that is fitted becomes a parameter", any(p is sigma for p in cam.additional_parameters) and len(cam.additional_parameters) == 1)
    else:
        ctx.prove("a known uncertainty is no parameter", len(cam.additional_parameters) == 0)
    if change == "camera":
        ctx.nonzero(new_value(ctx, "pos_x_m", 5) - m["pos_x_m"])
        cam.getLogProbability()
        m = dict(m, elevation_m=ctx.real("ele2", 1, 1000), center_x_px=new_value(ctx, "center_x_px", 6))
        cam.elevation_m = m["elevation_m"]
        cam.center_x_px = m["center_x_px"]
        fresh = build(ctx, "rect", "none", "thr", m)
    elif change == "sigma":
        cam.getLogProbability()
        s2 = ctx.real("sigma2", 0.01, 10)
        sigma.value = np.array(s2) if not ctx.symbolic else s2
        sig = [s2] * N
    exp = 0
    for i in range(N):
        exp = exp + term(size(ctx, fresh, what, feet[i], head[i], Z), mus[i], sig[i])
    equals(ctx, "sum of the normal terms of the %ss" % what, cam.getLogProbability(), exp)
    if change == "only_plot":
        add(ctx, cam, what, A, B, mu, sigma, Z, only_plot=True)
        equals(ctx, "only plotted: no term", cam.getLogProbability(), exp)
    if change == "clear":
        cam.clearLogProbability()
        ctx.eq("nothing observed any more", cam.getLogProbability(), 0)
        ctx.prove("no additional parameters any more", len(cam.additional_parameters) == 0)
        add(ctx, cam, what, A, B, mu, sigma, Z)
        equals(ctx, "observed again", cam.getLogProbability(), exp)


def h_undefined(ctx, what):
    """an object whose foot is above the horizon"""
    m = start(ctx, 90.)
    cam = build(ctx, "rect", "none", "thr", m)
    feet = [pixel(ctx, m, "f0", 1), pixel(ctx, m, "f1", -1)]
    head = [pixel(ctx, m, "h0", -1), pixel(ctx, m, "h1", -1)]
    add(ctx, cam, "length", stack(ctx, feet), stack(ctx, head), 1, 0.5, None)
    p = cam.getLogProbability()
    ctx.prove("an impossible observation has zero probability", float(p) == -np.inf, str(p))


def h_sum(ctx, order):
    """several kinds together, also custom terms"""
    m = start(ctx)
    cam, fresh = build(ctx, "rect", "none", "thr", m), build(ctx, "rect", "none", "thr", m)
    exp = 0
    extra = []
    for o in order:
        if o in ("height", "length"):
            a, b = pixel(ctx, m, "a" + o, 1), pixel(ctx, m, "b" + o, -1 if o == "height" else 1)
            mu, s = ctx.real("mu" + o, 0.1, 100), ctx.real("s" + o, 0.01, 10)
            add(ctx, cam, o, a, b, mu, s, None)
            exp = exp + term(size(ctx, fresh, o, a, b, None), mu, s)
        elif o == "fitted":
            a, b = pixel(ctx, m, "af", 1), pixel(ctx, m, "bf", 1)
            mu, s = ctx.real("muf", 0.1, 100), ctx.real("sf", 0.01, 10)
            v = Var(np.array(s) if not ctx.symbolic else s)
            extra.append(v)
            add(ctx, cam, "length", a, b, mu, v, None)
            exp = exp + term(size(ctx, fresh, "length", a, b, None), mu, s)
        elif o == "custom":
            v = ctx.real("c%d" % len(extra), -100, 1)
            cam.addCustomoLogProbability(lambda v=v: v)
            exp = exp + v
        elif o == "custom+":
            v = ctx.real("cp%d" % len(extra), -100, 1)
            p = Var(1.0, "extra")
            extra.append(p)
            cam.addCustomoLogProbability(lambda v=v: v, [p])
            exp = exp + v
    equals(ctx, "sum of all terms", cam.getLogProbability(), exp)
    ctx.prove("additional parameters in order", len(cam.additional_parameters) == len(extra) and all(a is b for a, b in zip(cam.additional_parameters, extra)))
    other = build(ctx, "rect", "none", "thr", m)
    ctx.eq("another camera has no terms", other.getLogProbability(), 0)


def h_horizon(ctx, N, shape, uhow, only=False):
    m = start(ctx, ctx.deg("tilt", -180, 180))
    for n in ("center_y_px",):
        pass
    cam, fresh = build(ctx, "rect", "none", "thr", m), build(ctx, "rect", "none", "thr", m)
    uas = [ctx.real("ua%d" % i, -1, 1) for i in range(N)]
    xs = [m["center_x_px"] + m["focallength_x_px"] * u for u in uas]
    Rm = R_doc(ctx, m["tilt_deg"], 0., 0.)
    ctx.pos(m["elevation_m"] + R_EARTH)
    ctx.pos(1 - R_EARTH / (R_EARTH + m["elevation_m"]))
    for ua in uas:
        for row in range(2):
            c = ray_doc(ctx, "rect", ua, (row - m["center_y_px"]) / m["focallength_y_px"])
            v = np.dot(Rm.T, c)
            ctx.pos(dot(c, c))
            ctx.pos(dot(v, v))
    ctx.pos(fresh.distanceToHorizon())
    ys = [ctx.real("y%d" % i, -10, 10) for i in range(N)]
    sigma, sig = uncertainty(ctx, uhow, N)
    H = vec(ctx, [xs[0], ys[0]]) if shape == "one" else mat(ctx, [[x, y] for x, y in zip(xs, ys)])
    if shape == "list":
        H = [[x, y] for x, y in zip(xs, ys)]
    cam.addHorizonInformation(H, sigma, only_plot=only)
    exp = 0
    for i in range(N):
        exp = exp + term(ys[i] - fresh.getImageHorizon(xs[i])[1], 0, sig[i])
    equals(ctx, "sum of the normal terms of the distances to the horizon", cam.getLogProbability(), 0 if only else exp)


def h_landmark(ctx, N, ushape, shape="N", only=False, gps=False):
    m = start(ctx)
    m.update(image_width_px=400, image_height_px=300)
    cam, fresh = build(ctx, "rect", "none", "thr", m), build(ctx, "rect", "none", "thr", m)
    k = [(ctx.real("ua%d" % i, -0.5, 0.5), ctx.real("ub%d" % i, -0.5, 0.5)) for i in range(N)]
    pix = [vec(ctx, [m["center_x_px"] + m["focallength_x_px"] * a, m["center_y_px"] + m["focallength_y_px"] * b]) for a, b in k]
    U = dict(number=2., three=[3., 4., 5.], each=[[3., 4., 5.], [1., 2., 6.]][:N])[ushape]
    us = dict(number=[[2.] * 3] * N, three=[[3., 4., 5.]] * N, each=[[3., 4., 5.], [1., 2., 6.]][:N])[ushape]
    umax = np.max(np.array(U))
    t = tvec(ctx, m)
    geo_pts = []
    pts = []
    Rm = R_doc(ctx, m["tilt_deg"], m["roll_deg"], m["heading_deg"])
    for i in range(N):
        d = np.dot(Rm.T, ray_doc(ctx, "rect", *k[i]))
        n = norm(ctx, d)
        for x in (dot(d, d), n):
            ctx.pos(x)
        # the landmark: a point along the ray plus an offset across it
        g = ctx.real("g%d" % i, 1, 100)
        e = cross(ctx, d, vec(ctx, ctx.vec("e%d_" % i, 3, -1, 1))) * ctx.real("h%d" % i, -10, 10)
        pts.append(t + d / n * g + e)
    I = pix[0] if shape == "one" else stack(ctx, pix)
    S = pts[0] if shape == "one" else stack(ctx, pts)
    cam.addLandmarkInformation(I, S, U, only_plot=only)
    exp = 0
    for i in range(N):
        d = np.dot(Rm.T, ray_doc(ctx, "rect", *k[i]))
        u = d / norm(ctx, d)
        g = ctx.real("g%d" % i, 1, 100)
        # sum over the points at the distances g + o
        os = np.linspace(-2 * umax, 2 * umax, 1000)
        n = len(os)
        if ctx.symbolic:
            os = [Fraction(repr(float(o))) for o in os]
        s1, s2 = sum(o for o in os), sum(o * o for o in os)
        for j in range(3):
            q = t[j] + u[j] * g - pts[i][j]
            sj = us[i][j]
            # sum_o (q + u o)^2 = n q^2 + 2 q u sum(o) + u^2 sum(o^2)
            exp = exp - (n * q * q + 2 * q * u[j] * s1 + u[j] * u[j] * s2) / (2 * sj * sj) + n * term(t[j], t[j], sj)
    got = cam.getLogProbability()
    ctx.eq("sum of the normal terms along the rays", got, 0 if only else exp, tol=1e-6)


def h_landmark_gps(ctx, ushape, shape="N", only=False):
    m = start(ctx)
    m.update(image_width_px=400, image_height_px=300)
    k = (ctx.real("ua", -0.5, 0.5), ctx.real("ub", -0.5, 0.5))
    U = dict(number=2., three=[3., 4., 5.], each=[[3., 4., 5.]])[ushape]
    us = [2.] * 3 if ushape == "number" else [3., 4., 5.]
    g0 = c12.geo(ctx, 0)
    geo = vec(ctx, c12.other(ctx, g0, 0, 1) + [ctx.real("lh", -100, 100)])
    probe = build(ctx, "rect", "none", "thr", dict(m, pos_x_m=0, pos_y_m=0, elevation_m=0))
    probe.setGPSpos(*g0)
    p = probe.spaceFromGPS(geo)
    Rm = R_doc(ctx, m["tilt_deg"], m["roll_deg"], m["heading_deg"])
    d = np.dot(Rm.T, ray_doc(ctx, "rect", *k))
    n = norm(ctx, d)
    for x in (dot(d, d), n):
        ctx.pos(x)
    u = d / n
    # the camera somewhere, so that the landmark is in the distance g along the ray and the offset e across it
    g = ctx.real("g", 1, 100)
    e = cross(ctx, d, vec(ctx, ctx.vec("e", 3, -1, 1))) * ctx.real("h", -10, 10)
    t = p - u * g - e
    m.update(pos_x_m=t[0], pos_y_m=t[1], elevation_m=t[2])
    cam = build(ctx, "rect", "none", "thr", m)
    cam.setGPSpos(*g0)
    pix = vec(ctx, [m["center_x_px"] + m["focallength_x_px"] * k[0], m["center_y_px"] + m["focallength_y_px"] * k[1]])
    cam.addLandmarkInformationGPS(pix if shape == "one" else stack(ctx, [pix]), geo if shape == "one" else geo[None], U, only_plot=only)
    umax = np.max(np.array(U))
    os = np.linspace(-2 * umax, 2 * umax, 1000)
    N = len(os)
    if ctx.symbolic:
        os = [Fraction(repr(float(o))) for o in os]
    s1, s2 = sum(o for o in os), sum(o * o for o in os)
    exp = 0
    for j in range(3):
        q = -e[j]
        exp = exp - (N * q * q + 2 * q * u[j] * s1 + u[j] * u[j] * s2) / (2 * us[j] * us[j]) + N * term(u[j], u[j], us[j])
    ctx.eq("sum of the normal terms along the rays", cam.getLogProbability(), 0 if only else exp, tol=1e-6)


def h_baseline(ctx, default):
    m = start(ctx)
    m2 = dict(m, pos_x_m=ctx.real("bx", -500, 500), pos_y_m=ctx.real("by", -500, 500), elevation_m=ctx.real("be", 1, 1000))
    a, b = build(ctx, "rect", "none", "thr", m), build(ctx, "rect", "none", "thr", m2)
    G = ctx.ct.CameraGroup([a.projection, b.projection], [a.orientation, b.orientation])
    t = ctx.real("target", 0.1, 100)
    s = 6 if default else ctx.real("sigma", 0.01, 10)
    G.addBaselineInformation(t, *(() if default else (s,)))
    B = np.sqrt((m["pos_x_m"] - m2["pos_x_m"]) ** 2 + (m["pos_y_m"] - m2["pos_y_m"]) ** 2)
    ctx.eq("normal term of the baseline", G.getLogProbability(), term(B, t, s), tol=1e-6)


def h_points(ctx, N, default=False, shape="N", angles=(60., 80., 10.), error=False):
    """pairs of corresponding points: distance of each point to the epipolar line of the other"""
    m = start(ctx, angles[0])
    m2 = dict(m, tilt_deg=angles[1], heading_deg=angles[2], pos_x_m=ctx.real("bx", -500, 500), pos_y_m=ctx.real("by", -500, 500), elevation_m=ctx.real("be", 1, 1000))
    for n in ("focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px"):
        m[n] = dict(focallength_x_px=100, focallength_y_px=120, center_x_px=50, center_y_px=40)[n]
        m2[n] = dict(focallength_x_px=90, focallength_y_px=100, center_x_px=45, center_y_px=35)[n]
    m.update(pos_x_m=0, pos_y_m=0, elevation_m=10)
    M = [m, m2]
    cams = [build(ctx, "rect", "none", "thr", x) for x in M]
    G = ctx.ct.CameraGroup([c.projection for c in cams], [c.orientation for c in cams])
    pts = [[vec(ctx, [M[c]["center_x_px"] + M[c]["focallength_x_px"] * ctx.real("ua%d%d" % (c, i), -1, 1), M[c]["center_y_px"] + M[c]["focallength_y_px"] * ctx.real("ub%d%d" % (c, i), -1, 1)])
            for i in range(N)] for c in (0, 1)]
    exp = 0
    s = 1 if default else ctx.real("sigma", 0.01, 10)
    dist2 = [[], []]
    for c in (0, 1):
        A, B = M[c], M[1 - c]
        Ra, Rb = [R_doc(ctx, x["tilt_deg"], x["roll_deg"], x["heading_deg"]) for x in (A, B)]
        for i in range(N):
            r = np.dot(Ra.T, ray_doc(ctx, "rect", (pts[c][i][0] - A["center_x_px"]) / A["focallength_x_px"], (pts[c][i][1] - A["center_y_px"]) / A["focallength_y_px"]))
            line = []
            for f in (1, 2):
                q = np.dot(Rb, tvec(ctx, A) + r * f - tvec(ctx, B))
                sg = (1, -1)[ctx.choice("side%d%d" % (c, f), 2)] if i == 0 else -1
                ctx.pos(sg * q[2])
                ctx.pos(sg * q[2] - 1e-10)
                if not ctx.symbolic:
                    ctx.assume(abs(q[2]) > 1e-2)
                line.append(proj_doc(ctx, "rect", B, q))
            l = line[1] - line[0]
            ctx.pos(dot(l, l))
            if not ctx.symbolic:
                ctx.assume(dot(l, l) > 1e-4)
            o = pts[1 - c][i] - line[0]
            x = l[0] * o[1] - l[1] * o[0]
            w = line[0] + l * dot(l, o) / dot(l, l) - pts[1 - c][i]
            ctx.pos(x * x)
            ctx.pos(x * x / dot(l, l))
            ctx.pos(dot(w, w))
            dist2[c].append(x * x / dot(l, l))
            exp = exp - x * x / dot(l, l) / (2 * s * s) + term(m2["pos_x_m"], m2["pos_x_m"], s)
    A = [pts[c][0] if shape == "one" else stack(ctx, pts[c]) for c in (0, 1)]
    if error:
        got = G.pointCorrespondenceError(*A)
        ctx.prove("two sets of distances", len(got) == 2 and all(np.shape(g) == ((N,) if shape == "N" else ()) for g in got))
        for c in (0, 1):
            for i in range(N):
                d = got[c][i] if shape == "N" else got[c]
                ctx.ge0("a distance is not negative", d)
                ctx.eq("distance of the point to the epipolar line (squared)", d * d, dist2[c][i], tol=1e-5)
        return
    G.addPointCorrespondenceInformation(*A, **({} if default else dict(uncertainty=s)))
    if N > 1:
        # the terms of the single pairs
        exp = 0
        for i in range(N):
            H = ctx.ct.CameraGroup([c.projection for c in cams], [c.orientation for c in cams])
            H.addPointCorrespondenceInformation(pts[0][i], pts[1][i], **({} if default else dict(uncertainty=s)))
            exp = exp + H.getLogProbability()
    ctx.eq("sum of the normal terms of the distances to the epipolar lines", G.getLogProbability(), exp, tol=1e-5)


def instances(tier):
    out = []
    fast = dict(feas_ms=0, max_paths=20000)
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, opts=fast, nreplay=3))
    for what in ("height", "length"):
        for mhow in ("number", "each"):
            for uhow in ("number", "each", "fitted", "int"):
                for N, shape in ((1, "one"), (1, "N"), (2, "N")):
                    if shape == "one" and "each" in (mhow, uhow):
                        continue
                    add("%s-%d%s-%s-%s" % (what, N, shape, mhow, uhow), h_object, what=what, N=N, shape=shape, mhow=mhow, uhow=uhow)
        for change in ("camera", "only_plot", "clear"):
            add("%s-change-%s" % (what, change), h_object, what=what, N=2, mhow="each", uhow="each", change=change)
        add("%s-change-sigma" % what, h_object, what=what, N=2, mhow="number", uhow="fitted", change="sigma")
        add("%s-change-clear-fitted" % what, h_object, what=what, N=2, mhow="number", uhow="fitted", change="clear")
    add("length-Z", h_object, what="length", N=2, mhow="number", uhow="number", z=True)
    add("length-Z-fitted", h_object, what="length", N=2, mhow="number", uhow="fitted", z=True)
    add("undefined", h_undefined, what="length")
    for order in (("height", "length"), ("custom", "custom"), ("custom", "length", "custom+"), ("fitted", "custom+", "height"), ("custom+", "fitted", "fitted"), ("height", "height")):
        add("sum-%s" % "-".join(order), h_sum, order=order)
    for N, shape in ((1, "one"), (1, "N"), (2, "N"), (2, "list")):
        for u in ("number", "each"):
            if shape == "one" and u == "each":
                continue
            add("horizon-%d%s-%s" % (N, shape, u), h_horizon, N=N, shape=shape, uhow=u)
    add("horizon-only", h_horizon, N=1, shape="N", uhow="number", only=True)
    for N, shape in ((1, "one"), (1, "N"), (2, "N")):
        for u in ("number", "three", "each"):
            if shape == "one" and u == "each":
                continue
            add("landmark-%d%s-%s" % (N, shape, u), h_landmark, N=N, ushape=u, shape=shape)
    add("landmark-only", h_landmark, N=1, ushape="three", only=True)
    for u, shape in (("number", "one"), ("three", "one"), ("three", "N"), ("each", "N")):
        add("landmark-gps-%s-%s" % (u, shape), h_landmark_gps, ushape=u, shape=shape)
    add("landmark-gps-only", h_landmark_gps, ushape="three", only=True)
    for d in (0, 1):
        add("baseline-%d" % d, h_baseline, default=d)
    for e in (False, True):
        for k, angles in enumerate(((90., 90., 0.), (90., 90., 180.), (0., 90., 90.))):
            add("points-1-%d-%s" % (k, "error" if e else "prob"), h_points, N=1, angles=angles, error=e)
        add("points-one-%s" % ("error" if e else "prob"), h_points, N=1, shape="one", angles=(90., 90., 90.), error=e, default=True)
        add("points-2-%s" % ("error" if e else "prob"), h_points, N=2, angles=(90., 90., 90.), error=e)
    return out
