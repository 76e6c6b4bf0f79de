"""C17: height and length of objects from their image points."""
import numpy as np
from .common import *

META = dict(bounds="all projections, any tilt/roll/heading (0 roll in some instances), intrinsics as in C02, feet 0.1..100 ray units in front of the camera, heights 0.01..100 m (also downwards), the plane Z any value, "
                   "single objects, lists, batches of 1 and 2 with Z scalar or one per object; objects not exactly in x or y direction of the camera by less than 1e-10 of the ray, except exactly",
            assumptions=[])


def one(ctx, kind, I, R, i, sects, hs, dsign, mid=False):
    """an upright object: pixels of foot and head, their camera rays and the distances along them, height"""
    w = R[:, 2]                      # the vertical seen from the camera
    if kind == "rect":
        u = nat(ctx, kind, "%d_" % i, "front", 2)
        if mid:
            u = 0, u[1]
        k2 = ctx.real("k%d" % i, 0.1, 100, prefer=(1, 20))
        h = ctx.real("h%d" % i, 0.01, 100, prefer=(0.5, 5)) if hs > 0 else ctx.real("h%d" % i, -100, -0.01, prefer=(-5, -0.5))
        c2 = ray_doc(ctx, kind, *u)
        fc = k2 * c2 - h * w
        ctx.neg(fc[2])
        if not ctx.symbolic:
            ctx.assume(abs(fc[2]) > 1e-2 and norm(ctx, fc[:2]) < 50 * abs(fc[2]))
        return proj_doc(ctx, kind, I, fc), vec(ctx, list(pix_from_angles(ctx, I, kind, *u))), fc / 1, 1, c2, k2, h
    # panorama: both horizontal angles are free, the vertical position of the head follows
    u1 = nat(ctx, kind, "%d_" % i, sects[0], 2)
    if mid:
        u1 = 0, u1[1]
    if kind == "equi":               # the tangent as the free quantity
        t1 = ctx.real("t%d" % i, -2, 2)
        u1 = u1[0], np.arctan(t1)
        c1 = vec(ctx, [np.sin(u1[0]), -t1, -np.cos(u1[0])])
    else:
        c1 = ray_doc(ctx, kind, *u1)
    k2 = ctx.real("k%d" % i, 0.1, 100, prefer=(1, 20))
    if dsign == 0:                   # the vertical is the axis of the panorama
        a, b = ctx.real("a%d" % i, 0.01, 100, prefer=(0.5, 2)), ctx.real("b%d" % i, 0.001, 100, prefer=(0.1, 1)) * hs
        c2 = (a * c1 + b * w) / a
        k1, h = k2, k2 * b / a
        x2 = u1[0]
        t2 = -c2[1]
    else:
        lo, hi = SECT[sects[1]]
        x2 = ctx.real("va%d" % i, lo, hi, prefer=(max(lo, -2.9), min(hi, 2.9)))
        D = c1[0] * w[2] - c1[2] * w[0]
        (ctx.pos if dsign > 0 else ctx.neg)(D)
        s2, m2 = np.sin(x2), -np.cos(x2)
        a = (s2 * w[2] - m2 * w[0]) / D
        b = (c1[0] * m2 - c1[2] * s2) / D
        ctx.pos(a)
        (ctx.pos if hs > 0 else ctx.neg)(b)
        t2 = -(a * c1[1] + b * w[1])
        c2 = vec(ctx, [s2, -t2, m2])
        k1, h = k2 * a, k2 * b
        if not ctx.symbolic:
            ctx.assume(abs(D) > 1e-2 and 1e-3 < a < 1e3 and 1e-3 < abs(b) < 1e3 and abs(t2) < 50)
    if not ctx.symbolic:
        ctx.assume(abs(h) > 1e-2)
    foot = vec(ctx, list(pix_from_angles(ctx, I, kind, *u1)))
    head = vec(ctx, list(pix_from_angles(ctx, I, kind, x2, t2 if kind == "cyl" else np.arctan(t2))))
    return foot, head, c1, k1, c2, k2, h


def h_height(ctx, kind, sx, sy, hs, form, sects=("front", "front"), dsign=1, fixed=(), mid=False):
    """sx, sy: signs of the direction to the head (0: exactly in y or x direction)"""
    A = {n: (fixed[n] if n in fixed else ctx.deg(n, -360, 360)) for n in ("tilt", "roll", "heading")}
    I = intr(ctx)
    R = R_doc(ctx, A["tilt"], A["roll"], A["heading"])
    N = 2 if form in ("batch", "batchZ") else 1
    ele, px, py = ctx.real("ele", -100, 1000, prefer=(5, 50)), ctx.real("px", -1000, 1000, prefer=(-30, 30)), ctx.real("py", -1000, 1000, prefer=(-30, 30))
    feet, heads, hgt, Zs = [], [], [], []
    for i in range(N):
        fp, hp, c1, k1, c2, k2, h = one(ctx, kind, I, R, i, sects, hs if i == 0 else -hs, dsign, mid)
        d, f = np.dot(R.T, c2), np.dot(R.T, c1)
        for s, x in ((sx, f[0]), (sy, f[1]), (sx, d[0]), (sy, d[1])):
            if s:
                s = s if i == 0 else -s
                ctx.pos(s * x)
                ctx.pos(s * x - 1e-10)
                if not ctx.symbolic:
                    ctx.assume(abs(x) > 1e-3)
        # the ray of the foot reaches its plane
        if form == "batch" and i == 1:
            # both stand on the same plane: the second distance follows
            r = (Zs[0] - ele) / f[2] / k1
            ctx.nonzero(f[2])
            ctx.pos(r)
            if not ctx.symbolic:
                ctx.assume(1e-2 < r < 1e2)
            h = h * r
            Zs.append(Zs[0])
        else:
            ctx.nonzero(f[2])
            Zs.append(ele + k1 * f[2])
        if not ctx.symbolic:
            ctx.assume(abs(f[2] * k1) > 1e-2 and abs(f[2]) > 1e-3 * norm(ctx, f))
        heads.append(hp)
        feet.append(fp)
        hgt.append(h)
    P = dict(elevation_m=ele, pos_x_m=px, pos_y_m=py, **{n + "_deg": v for n, v in A.items()})
    cam, _, _ = camera(ctx, kind, I, P)
    if form == "single":
        got = cam.getObjectHeight(feet[0], heads[0], Z=Zs[0])
        ctx.prove("a number", np.shape(got) == (), str(np.shape(got)))
    elif form == "list":
        got = cam.getObjectHeight([list(feet[0])], [list(heads[0])], Zs[0])
        ctx.prove("one per object", np.shape(got) == (1,), str(np.shape(got)))
        got = got[0]
    elif form == "batch":
        got = cam.getObjectHeight(stack(ctx, feet), stack(ctx, heads), Z=Zs[0])
    else:
        got = cam.getObjectHeight(stack(ctx, feet), stack(ctx, heads), Z=vec(ctx, Zs))
    if N == 2:
        ctx.prove("one per object", np.shape(got) == (2,), str(np.shape(got)))
        for i in range(2):
            ctx.eq("height of object %d" % i, got[i], hgt[i])
    else:
        ctx.eq("height of the object", got, hgt[0])


def h_length(ctx, kind, form, sects, fixed=()):
    A = {n: (fixed[n] if n in fixed else ctx.deg(n, -360, 360)) for n in ("tilt", "roll", "heading")}
    I = intr(ctx)
    R = R_doc(ctx, A["tilt"], A["roll"], A["heading"])
    ele, px, py = ctx.real("ele", -100, 1000, prefer=(5, 50)), ctx.real("px", -1000, 1000, prefer=(-30, 30)), ctx.real("py", -1000, 1000, prefer=(-30, 30))
    N = 2 if form in ("batch", "batchZ") else 1
    front, back, exp, Zs = [], [], [], []
    Z0 = None
    for i in range(N):
        pts = []
        for j in range(2):
            u = nat(ctx, kind, "%d%d_" % (i, j), sects[j], 2)
            d = np.dot(R.T, ray_doc(ctx, kind, *u))
            if Z0 is None or (form == "batchZ" and j == 0):
                k = ctx.real("k%d%d" % (i, j), 0.1, 100, prefer=(1, 20))
                ctx.nonzero(d[2])
                Z = ele + k * d[2]
                Z0 = Z
            else:
                ctx.nonzero(d[2])
                k = (Z0 - ele) / d[2]
                ctx.pos(k)
            if not ctx.symbolic:
                ctx.assume(abs(d[2]) > 1e-2)
            pts.append(k * d)
            (front if j == 0 else back).append(vec(ctx, list(pix_from_angles(ctx, I, kind, *u))))
        Zs.append(Z0)
        exp.append(norm(ctx, vec(ctx, [pts[0][0] - pts[1][0], pts[0][1] - pts[1][1]])))
    P = dict(elevation_m=ele, pos_x_m=px, pos_y_m=py, **{n + "_deg": v for n, v in A.items()})
    cam, _, _ = camera(ctx, kind, I, P)
    if form == "single":
        got = cam.getObjectLength(front[0], back[0], Z=Z0)
        ctx.prove("a number", np.shape(got) == (), str(np.shape(got)))
        ctx.eq("length of the object", got, exp[0], tol=1e-5)
        ctx.eq("the ends can be exchanged", cam.getObjectLength(list(back[0]), list(front[0]), Z=Z0), exp[0], tol=1e-5)
    else:
        got = cam.getObjectLength(stack(ctx, front), stack(ctx, back), Z=vec(ctx, Zs) if form == "batchZ" else Z0)
        ctx.prove("one per object", np.shape(got) == (N,), str(np.shape(got)))
        for i in range(N):
            ctx.eq("length of object %d" % i, got[i], exp[i], tol=1e-5)


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k))
    F = ("front", "front")
    for kind in KINDS:
        for n, (sx, sy) in enumerate(((1, 1), (1, -1), (-1, 1), (-1, -1))):
            for hs in (1, -1):
                form = ("single", "batch", "list", "batchZ")[(n + (hs < 0)) % 4]
                sects = F if kind == "rect" else (F, ("left", "left"), ("right", "right"), F)[(n + 2 * (hs < 0)) % 4]
                add("height-%s-%d-%d-%d-%s" % (kind, sx, sy, hs, form), h_height, kind=kind, sx=sx, sy=sy, hs=hs, form=form, sects=sects, dsign=sx * hs)
        upright = dict(tilt=90., roll=0.)
        for n, (sx, sy) in enumerate(((1, 1), (-1, -1))):
            add("height-upright-%s-%d-%d" % (kind, sx, sy), h_height, kind=kind, sx=sx, sy=sy, hs=1, form=("single", "batchZ")[n], sects=F, dsign=0, fixed=upright)
        # objects exactly in x or y direction of the camera
        for hd, sx, sy in ((0., 0, 1), (180., 0, -1), (90., 1, 0), (-90., -1, 0)):
            fixed = dict(roll=0., heading=hd) if kind == "rect" else dict(upright, heading=hd)
            add("height-straight-%s-%d" % (kind, hd), h_height, kind=kind, sx=sx, sy=sy, hs=1, form="single", sects=F, dsign=0, fixed=fixed, mid=True)
        for n, sects in enumerate((F, F, ("left", "front"), ("right", "right"))):
            if kind == "rect" and sects != F:
                continue
            for form in ("single", "batch", "batchZ"):
                if n == 1 and form != "single":
                    continue
                add("length-%s-%s-%d" % (kind, form, n), h_length, kind=kind, form=form, sects=sects, fixed=upright if n == 1 else ())
    return out
