"""C13: gps <-> local coordinates."""
import numpy as np
from .common import *
from .c12 import geo, other, nvec, frame, off_pole, R

META = dict(bounds="origin latitude in [-89.9, 89.9] deg, longitude [-180, 180] deg, offsets of 1 m to just below half the circumference in any direction "
                   "(not to the poles), heights within +-10 km; single points and batches of 2 and 3; gps from image: every projection, a camera looking north horizontally (other poses by C03, C04); image from gps: rectilinear camera (thorough: all) with any pose",
            assumptions=["an origin given with a height is only used for points without height", "converting and back: both directions are shown equal to the same position vectors"])


def offset(ctx, a, i=""):
    """a local position in polar form (every position is of this form)"""
    d, b = ctx.deg("delta%s" % i, 0.00001, 179.9, prefer=(0.01, 170)), ctx.deg("beta%s" % i, -180, 180)
    off_pole(ctx, a, d, b)
    r = R * d * ctx.pi / 180
    return d, b, vec(ctx, [r * ctx.sind(b), r * ctx.cosd(b)])


def local(ctx, a, q, got, h):
    """got are the local coordinates of the position q"""
    E, N = frame(ctx, a[0], a[1])
    n = nvec(ctx, q[0], q[1])
    e, no = dot(n, E), dot(n, N)
    ctx.eq("local coordinates: length is the great-circle distance", np.cos(np.sqrt(got[0] * got[0] + got[1] * got[1]) / R), dot(n, nvec(ctx, a[0], a[1])), tol=1e-7)
    ctx.eq("local coordinates: east and north (perpendicular)", (got[0] * no - got[1] * e) / R, 0)
    ctx.ge0("local coordinates: east and north (forward)", got[0] * e + got[1] * no)
    ctx.eq("local coordinates: height", got[2], h)


def target(ctx, a, d, b, got, h=None):
    n = nvec(ctx, a[0], a[1])
    E, N = frame(ctx, a[0], a[1])
    s, c = ctx.sind, ctx.cosd
    t = n * c(d) + (N * c(b) + E * s(b)) * s(d)
    ctx.eq("the gps position lies in the distance and direction", nvec(ctx, got[0], got[1]), t, tol=1e-9)
    if h is not None:
        ctx.eq("the height is kept", got[2], h)


def h_space(ctx, form, sign, via):
    ct = ctx.ct
    a = geo(ctx, 0)
    b = other(ctx, a, "", sign)
    if via == "camera":
        cam, I, P = camera(ctx)
        cam.setGPSpos(a[0], a[1])
        f = lambda g, g0: cam.spaceFromGPS(g)
    else:
        f = ct.spaceFromGPS
    a0 = vec(ctx, a)
    if form == "2d":
        got = f(vec(ctx, b), a0)
        ctx.prove("shape", np.shape(got) == (3,), str(np.shape(got)))
        local(ctx, a, b, got, 0)
    elif form == "3d":
        h = ctx.real("h", -10000, 10000)
        got = f(vec(ctx, b + [h]), a0)
        ctx.prove("shape", np.shape(got) == (3,), str(np.shape(got)))
        local(ctx, a, b, got, h)
    elif form == "origin-height":
        got = ct.spaceFromGPS(vec(ctx, b), vec(ctx, a + [ctx.real("h0", -100, 8000)]))
        local(ctx, a, b, got, 0)
    else:
        n, dim = form
        pts = [b] + [other(ctx, a, i, sign) for i in range(1, n)]
        if dim == 3:
            pts = [p + [ctx.real("h%d" % i, -10000, 10000)] for i, p in enumerate(pts)]
        got = f(stack(ctx, [vec(ctx, p) for p in pts]), a0)
        ctx.prove("shape", np.shape(got) == (n, 3), str(np.shape(got)))
        for i, p in enumerate(pts):
            local(ctx, a, p, got[i], p[2] if dim == 3 else 0)


def h_gps(ctx, form, via):
    ct = ctx.ct
    a = geo(ctx, 0)
    d, b, xy = offset(ctx, a)
    if via == "camera":
        cam, I, P = camera(ctx)
        cam.setGPSpos(a[0], a[1])
        f = lambda g, g0: cam.gpsFromSpace(g)
    else:
        f = ct.gpsFromSpace
    a0 = vec(ctx, a)
    if form == "2d":
        got = f(xy, a0)
        ctx.prove("shape", np.shape(got) == (2,), str(np.shape(got)))
        target(ctx, a, d, b, got)
    elif form == "3d":
        h = ctx.real("h", -10000, 10000)
        got = f(vec(ctx, list(xy) + [h]), a0)
        ctx.prove("shape", np.shape(got) == (3,), str(np.shape(got)))
        target(ctx, a, d, b, got, h)
    else:
        n, dim = form
        offs = [(d, b, xy)] + [offset(ctx, a, i) for i in range(1, n)]
        hs = [ctx.real("h%d" % i, -10000, 10000) for i in range(n)]
        pts = [vec(ctx, list(o[2]) + ([hs[i]] if dim == 3 else [])) for i, o in enumerate(offs)]
        got = f(stack(ctx, pts), a0)
        ctx.prove("shape", np.shape(got) == (n, dim), str(np.shape(got)))
        one = [f(p, a0) for p in pts]
        ctx.eq("a batch gives the results of its members", got, stack(ctx, one))


def h_origin(ctx, form):
    """the origin itself"""
    ct = ctx.ct
    a = vec(ctx, geo(ctx, 0))
    h = ctx.real("h", -100, 1000)
    ctx.eq("the origin has the local position 0", ct.spaceFromGPS(a, a), vec(ctx, [0, 0, 0]))
    ctx.eq("the origin with height", ct.spaceFromGPS(vec(ctx, list(a) + [h]), a), vec(ctx, [0, 0, h]))
    ctx.eq("the local position 0 is the origin", ct.gpsFromSpace(vec(ctx, [0, 0]), a), a)


def h_setpos(ctx, form):
    cam, I, P = camera(ctx)
    a = geo(ctx, 0)
    e = ctx.real("e", 0, 5000)
    if form == "two":
        cam.setGPSpos(a[0], a[1])
    elif form == "three":
        cam.setGPSpos(a[0], a[1], e)
    elif form == "list2":
        cam.setGPSpos([a[0], a[1]])
    elif form == "tuple3":
        cam.setGPSpos((a[0], a[1], e))
    elif form == "array3":
        cam.setGPSpos(vec(ctx, [a[0], a[1], e]))
    elif form == "attr":
        cam.gps_lat, cam.gps_lon = a
    ctx.eq("latitude and longitude are set", vec(ctx, [cam.gps_lat, cam.gps_lon]), vec(ctx, a))
    want = dict(P)
    if "3" in form or form == "three":
        want["elevation_m"] = e
    ctx.eq("the elevation is set or kept", cam.elevation_m, want["elevation_m"])
    p = vec(ctx, [ctx.real("q%d" % i, -1000, 1000) for i in range(3)])
    # takes effect in the pose
    ref = ctx.ct.Camera(projection(ctx, "rect", I), ctx.ct.SpatialOrientation(**want))
    ctx.eq("pose", cam.orientation.cameraFromSpace(p), ref.orientation.cameraFromSpace(p))


def h_image(ctx, kind, what, sect, shape):
    """gps <-> image is the composition of gps <-> space and space <-> image"""
    ct = ctx.ct
    P = pose(ctx)
    if what != "imageFromGPS":
        P = pose(ctx, fixed=dict(tilt=90, roll=0, heading=0))
        if kind != "rect":
            P.update(pos_x_m=0, pos_y_m=0)
    cam, I, P = camera(ctx, kind, P=P)
    a = geo(ctx, 0)
    cam.setGPSpos(a[0], a[1])
    g = vec(ctx, a)
    if what == "imageFromGPS":
        n = 1 if len(shape) == 1 else shape[0]
        gps = [vec(ctx, other(ctx, a, i, sect) + [ctx.real("gh%d" % i, -100, 1000)]) for i in range(n)]
        gps = gps[0] if len(shape) == 1 else stack(ctx, gps)
        space = ct.spaceFromGPS(gps, g)
        d = np.dot(space - tvec(ctx, P), R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"]).T).reshape(-1, 3)
        for i in range(n):
            ctx.neg(d[i][2])
            ctx.pos(d[i][0]) if i == 0 else ctx.neg(d[i][0])
        got = cam.imageFromGPS(gps)
        ctx.prove("shape", np.shape(got) == shape[:-1] + (2,), str(np.shape(got)))
        ctx.eq("image from gps is image from space", got, cam.imageFromSpace(space))
        return
    pix, nats = pixels(ctx, kind, I, shape, sects=(sect, "left" if sect == "right" else "right"))
    t = tvec(ctx, P)
    # looking horizontally north: ray component right, forward, down
    rays = [ray_doc(ctx, kind, *u) for u in nats]
    d = [vec(ctx, [r[0], -r[2], r[1]]) for r in rays]
    k = [ctx.real("k%d" % i, 0.001, 1000, prefer=(0.5, 50)) for i in range(len(d))]
    exp = [t + k[i] * d[i] for i in range(len(d))]
    for i, p in enumerate(exp):
        if kind == "rect":
            ctx.pos(p[1])
            (ctx.pos if i == (sect == "left") else ctx.neg)(p[0])
        r = np.sqrt(p[0] * p[0] + p[1] * p[1])
        z = ctx.sind(a[0]) * np.cos(r / R) + ctx.cosd(a[0]) * np.sin(r / R) * p[1] / r
        ctx.pos(1 - z * z)
    if what == "D":
        val = [k[i] * norm(ctx, rays[i]) for i in range(len(d))]
        kw = dict(D=val[0] if len(shape) == 1 else vec(ctx, val))
    else:
        ai = "XYZ".index(what)
        for i in range(len(d)):
            ctx.nonzero(d[i][ai]) if ctx.symbolic else ctx.assume(abs(d[i][ai]) > 1e-3)
        val = [exp[i][ai] for i in range(len(d))]
        kw = {what: val[0] if len(shape) == 1 else vec(ctx, val)}
        if what != "Z":
            kw["Z"] = None
    got = cam.gpsFromImage(pix, **kw)
    ctx.prove("shape", np.shape(got) == shape[:-1] + (3,), str(np.shape(got)))
    ctx.eq("gps from image is the gps position of the space point", got, ct.gpsFromSpace(exp[0] if len(shape) == 1 else stack(ctx, exp), g))


def instances(tier):
    out = []
    for via in ("module", "camera"):
        for f in ("2d", "3d", (2, 2), (2, 3), (3, 2), (3, 3)) + (("origin-height",) if via == "module" else ()):
            for s in ((1, -1) if isinstance(f, str) else (1,)):
                out.append(dict(name="space-%s-%s-%s" % (via, f if isinstance(f, str) else "%dx%d" % f, "east" if s > 0 else "west"), fn=h_space, args=dict(form=f, sign=s, via=via)))
        for f in ("2d", "3d", (2, 2), (2, 3), (3, 3)):
            out.append(dict(name="gps-%s-%s" % (via, f if isinstance(f, str) else "%dx%d" % f), fn=h_gps, args=dict(form=f, via=via)))
    out.append(dict(name="origin", fn=h_origin, args=dict(form="")))
    for f in ("two", "three", "list2", "tuple3", "array3", "attr"):
        out.append(dict(name="setpos-" + f, fn=h_setpos, args=dict(form=f)))
    for kind in KINDS:
        for what in "XYZD":
            out.append(dict(name="gpsFromImage-%s-%s" % (kind, what), fn=h_image, args=dict(kind=kind, what=what, sect="left" if what in "XZ" else "right", shape=(2,))))
        out.append(dict(name="gpsFromImage-%s-batch" % kind, fn=h_image, args=dict(kind=kind, what="D", sect="left", shape=(2, 2))))
        if kind != "rect" and tier == "quick":
            continue
        for s in (1, -1):
            out.append(dict(name="imageFromGPS-%s-%d" % (kind, s), fn=h_image, args=dict(kind=kind, what="imageFromGPS", sect=s, shape=(3,))))
        out.append(dict(name="imageFromGPS-%s-batch" % kind, fn=h_image, args=dict(kind=kind, what="imageFromGPS", sect=1, shape=(2, 3))))
    return out
