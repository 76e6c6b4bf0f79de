"""The transformations of the package as a table: a call, and generators of the arguments of one point."""
import numpy as np
from .common import *
from .c12 import geo, other, dist, off_pole, R
from .c14 import v3


def wedge(ctx):
    """a triangle with one edge along x and one across it"""
    r = lambda n: ctx.real(n, 0.1, 10)
    v0 = v3(ctx, "ta")
    return np.array([v0, v0 + vec(ctx, [r("tb"), 0, 0]), v0 + vec(ctx, [0, r("tc"), r("te")])])


class Op:
    def __init__(self, call, gens, shapes=((2,), (1,), (2, 1)), out=None, objs=(), per_ray=None):
        self.call, self.gens, self.shapes, self.objs = call, gens, shapes, objs
        self.out = out


def pose_all(ctx, pre=""):
    return pose(ctx, pre)


def make(ctx, name, kind="rect", lens="none", simple=False, generic=False):
    """name -> Op.   gens(i): the arguments of point i, each a vector or a number"""
    ct = ctx.ct
    group, _, what = name.partition(".")
    lo, hi = -500, 500

    def space(i):
        return vec(ctx, ctx.vec("p%d_" % i, 3, lo, hi, prefer=(-60, 60)))

    def pixel(i, pre="", c=None):
        c = c or I
        return vec(ctx, list(pix_from_angles(ctx, c, kind, *nat(ctx, kind, "%s%d_" % (pre, i), "front", 3))))

    if group in ("camera", "projection", "orientation", "orientation2", "lens", "pair"):
        I = intr(ctx)
        K = lens_coef(ctx, lens)
    if group == "orientation2":
        o = ct.SpatialOrientationYawPitchRoll(yaw_deg=ctx.deg("yaw"), pitch_deg=ctx.deg("pitch"), roll_deg=ctx.deg("rll"), elevation_m=ctx.real("ele", -100, 100), pos_x_m=ctx.real("px", -100, 100), pos_y_m=ctx.real("py", -100, 100))
        group = "orientation"
    elif group in ("camera", "orientation", "lens"):
        P = pose(ctx, fixed=dict(tilt=90., roll=0., heading=0.) if simple else ())
        o = ct.SpatialOrientation(**P)
    if group in ("camera", "lens"):
        L = make_lens(ctx, lens, K)
        cam = ct.Camera(projection(ctx, kind, I), o, L)
    if group == "camera":
        objs = (cam,)
        Rd = R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"])
        free_pixel = pixel

        def pixel(i, pre=""):
            if not generic:
                return free_pixel(i, pre)
            u = nat(ctx, kind, "%s%d_" % (pre, i), "front", 3)
            d = np.dot(Rd.T, ray_doc(ctx, kind, *u))
            for j in generic:
                ctx.nonzero(d[j])
            if len(generic) == 3 and pre == "b":
                for j, sg in ((0, 1), (1, -1)):
                    sg = sg if i else -sg
                    ctx.pos(sg * d[j], sg * d[j] - 1e-10)
            return vec(ctx, list(pix_from_angles(ctx, I, kind, *u)))
        if generic:
            ctx.nonzero(P["elevation_m"])
        def lpix(i, pre=""):
            return lens_pixel(ctx, lens, K, I, (400, 300), "%s%d" % (pre, i))[1] if lens != "none" else pixel(i, pre)
        if what in ("imageFromSpace", "imageFromSpace-all"):
            hide = what == "imageFromSpace"

            def sp(i):
                # any space point, by its camera coordinates
                p = space(i)
                if generic:
                    ctx.nonzero(p[2])
                return np.dot(R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"]).T, p) + tvec(ctx, P)
            return Op(lambda p: cam.imageFromSpace(p, hide_backpoints=hide), lambda i: (sp(i),), objs=objs)
        if what in ("getRay", "getRay-normed"):
            return Op(lambda p: cam.getRay(p, normed=what == "getRay-normed")[1], lambda i: (lpix(i),), objs=objs)
        if what.startswith("spaceFromImage"):
            _, c, how = what.split("-")
            if how == "fixed":
                v = ctx.real("fix", 0.1 if c == "D" else -100, 100)
                return Op(lambda p: cam.spaceFromImage(p, **{c: v}), lambda i: (lpix(i),), shapes=((2,), (1,)), objs=objs)
            return Op(lambda p, z: cam.spaceFromImage(p, **{c: z}), lambda i: (lpix(i), ctx.real("fix%d" % i, 0.1 if c == "D" else -100, 100)), shapes=((2,), (1,)), objs=objs)
        if what == "mesh":
            tri = wedge(ctx)
            return Op(lambda p, t: cam.spaceFromImage(p, mesh=t), lambda i: (pixel(i),), shapes=((2,), (1,)), objs=objs), tri
        if what in ("getObjectHeight", "getObjectLength"):
            f = getattr(cam, what)
            return Op(lambda a, b: f(a, b, Z=0), lambda i: (pixel(i, "a"), pixel(i, "b")), shapes=((2,), (1,)), objs=objs)
        if what in ("getObjectHeight-Z", "getObjectLength-Z"):
            f = getattr(cam, what[:-2])
            return Op(lambda a, b, z: f(a, b, Z=z), lambda i: (pixel(i, "a"), pixel(i, "b"), ctx.real("fix%d" % i, -10, 10)), shapes=((2,), (1,)), objs=objs)
        if what in ("gpsFromSpace", "spaceFromGPS"):
            g0 = geo(ctx, 0)
            cam.setGPSpos(*g0)
            if what == "spaceFromGPS":
                return Op(cam.spaceFromGPS, lambda i: (vec(ctx, other(ctx, g0, i, 1 - 2 * (i % 2))),), objs=objs)
            from .c13 import offset
            return Op(cam.gpsFromSpace, lambda i: (vec(ctx, list(offset(ctx, g0, i)[2]) + [ctx.real("h%d" % i, -100, 100)]),), objs=objs)
    if group == "projection":
        p = projection(ctx, kind, I)
        if what in ("getRay", "getRay-normed"):
            return Op(lambda x: p.getRay(x, normed=what == "getRay-normed"), lambda i: (pixel(i),), shapes=((2,), (1,), (2, 1), (1, 1, 2)), objs=(p,))
        return Op(lambda x: p.imageFromCamera(x, hide_backpoints=what == "imageFromCamera"), lambda i: (space(i),), shapes=((2,), (1,), (3,), (2, 1), (1, 1, 2)), objs=(p,))
    if group == "orientation":
        shapes = ((2,), (1,), (3,), (2, 2), (1, 2, 2))
        if what == "cameraFromSpace":
            return Op(o.cameraFromSpace, lambda i: (space(i),), shapes=shapes, objs=(o,))
        return Op(lambda x: o.spaceFromCamera(x, direction=what == "spaceFromCamera-direction"), lambda i: (space(i),), shapes=shapes, objs=(o,))
    if group == "lens":
        n = 0 if what == "distortedFromImage" else 1
        return Op(getattr(L, what), lambda i: (lens_pixel(ctx, lens, K, I, (400, 300), i)[n],), shapes=((2,), (1,), (3,), (2, 1)), objs=(cam,))
    if group == "gps":
        h = what.endswith("-height")
        what = what.replace("-height", "")
        if what in ("getDistance", "getBearing"):
            def g(i):
                a = geo(ctx, "%d" % i)
                b = other(ctx, a, i, 1 - 2 * (i % 2))
                if h:
                    a, b = [x + [ctx.real("h%d%d" % (i, n), -1000, 1000)] for n, x in enumerate((a, b))]
                return vec(ctx, a), vec(ctx, b)
            return Op(getattr(ct, what), g, shapes=((2,), (1,), (3,), (2, 1)))
        if what == "moveDistance":
            def g(i):
                a, d, b = geo(ctx, i, h), dist(ctx, i), ctx.deg("beta%d" % i, -180, 180)
                off_pole(ctx, a, d, b)
                return vec(ctx, a), (R + a[2] if h else R) * d * (ctx.pi / 180), b
            return Op(ct.moveDistance, g, shapes=((2,), (1,)))
        if what == "spaceFromGPS":
            a = vec(ctx, geo(ctx, "o"))
            return Op(lambda x: ct.spaceFromGPS(x, a), lambda i: (vec(ctx, other(ctx, list(a), i, 1 - 2 * (i % 2)) + ([ctx.real("h%d" % i, -100, 100)] if h else [])),), shapes=((2,), (1,)))
        if what == "gpsFromSpace":
            a = vec(ctx, geo(ctx, "o"))
            from .c13 import offset
            return Op(lambda x: ct.gpsFromSpace(x, a), lambda i: (vec(ctx, list(offset(ctx, list(a), i)[2]) + ([ctx.real("h%d" % i, -100, 100)] if h else [])),), shapes=((2,), (1,)))
    if group == "ray":
        p1, p2 = (v3(ctx, "p"), v3(ctx, "q")) if what not in ("areaOfQuadrilateral",) else (None, None)
        if what in ("intersectionOfTwoLines", "distanceOfTwoLines"):
            f = getattr(ct.ray, what)
            return Op(lambda v, w: f(p1, v, p2, w), lambda i: (v3(ctx, "v%d_" % i, -2, 2), v3(ctx, "w%d_" % i, -2, 2)), shapes=((2,), (1,)))
        if what == "getClosestPointFromLine":
            def g(i):
                v = v3(ctx, "v%d_" % i, -2, 2)
                ctx.pos(dot(v, v))
                return v, v3(ctx, "w%d_" % i, -2, 2)
            return Op(lambda v, w: ct.ray.getClosestPointFromLine(p1, v, w), g, shapes=((2,), (1,)))
        if what == "areaOfQuadrilateral":
            return Op(ct.ray.areaOfQuadrilateral, lambda i: (np.array([v3(ctx, "r%d%d_" % (i, j))[:2] for j in range(4)]),), shapes=((2,), (1,), (2, 2)))
        if what in ("mesh", "mesh-planes"):
            tri = wedge(ctx)
            return Op(lambda v: ct.ray.ray_intersect_triangle(p1, v, tri, use_planes=what == "mesh-planes"), lambda i: (v3(ctx, "v%d_" % i, -2, 2),), shapes=((2,), (1,)))
        if what == "mesh-origins":
            tri = wedge(ctx)
            return Op(lambda q, v: ct.ray.ray_intersect_triangle(q, v, tri), lambda i: (v3(ctx, "o%d_" % i), v3(ctx, "v%d_" % i, -2, 2),), shapes=((2,), (1,)))
    if group == "pair":
        I2 = intr(ctx, "b")
        A = pose(ctx, "a")
        B = pose(ctx, "b", fixed=dict(tilt=90., roll=0.))
        G = ct.CameraGroup([projection(ctx, kind, I), projection(ctx, kind, I2)], [ct.SpatialOrientation(**A), ct.SpatialOrientation(**B)])
        if what in ("spaceFromImages", "discanteBetweenRays"):
            f = getattr(G, what)
            return Op(f, lambda i: (pixel(i, "a"), pixel(i, "b", I2)), shapes=((2,), (1,)), objs=(G,))
        if what == "imagesFromSpace":
            def sp(i):
                p = space(i)
                if generic:              # visible in one camera only, alternating
                    sg = 1 if i else -1
                    ctx.pos(sg * p[2], sg * p[2] - 1e-10)
                    q = np.dot(R_doc(ctx, B["tilt_deg"], B["roll_deg"], B["heading_deg"]), np.dot(R_doc(ctx, A["tilt_deg"], A["roll_deg"], A["heading_deg"]).T, p) + tvec(ctx, A) - tvec(ctx, B))
                    ctx.neg(sg * q[2])
                    ctx.pos(-sg * q[2] - 1e-10)
                return np.dot(R_doc(ctx, A["tilt_deg"], A["roll_deg"], A["heading_deg"]).T, p) + tvec(ctx, A)
            return Op(lambda p: np.stack(G.imagesFromSpace(p), axis=-1), lambda i: (sp(i),), shapes=((2,), (1,)), objs=(G,))
    raise KeyError(name)


def stacked(ctx, args, shape):
    """list of per-point argument tuples -> arrays with the leading shape"""
    out = []
    for xs in zip(*args):
        a = np.empty(shape + np.shape(xs[0]), dtype=dt(ctx))
        for j, i in enumerate(np.ndindex(*shape)):
            a[i] = xs[j]
        out.append(a)
    return out
