"""C04: projection equations and points behind the camera."""
import numpy as np
from .common import *

META = dict(bounds="camera points with |x|,|y| <= 1e4 and |z| in [1e-6, 1e4] (plus z = 0 exactly for the panoramic projections), focal lengths 0.1..1e5 px, "
                   "centre +-1e4 px, any image size; not on the branch cut (x = 0, z > 0) of the panoramic projections; shapes (3,), (1,3), (2,3), (3,3), (2,2,3)")


def cpoint(ctx, i, front, xs=None, pano=True):
    x = ctx.real("x%s" % i, -10000, 10000, prefer=(-20, 20))
    y = ctx.real("y%s" % i, -10000, 10000, prefer=(-20, 20))
    if front == 0:
        z = 0.0
        if xs == "pos":
            ctx.pos(x)
        else:
            ctx.neg(x)
    else:
        z = ctx.real("z%s" % i, -10000, -1e-6, prefer=(-50, -0.5)) if front > 0 else ctx.real("z%s" % i, 1e-6, 10000, prefer=(0.5, 50))
        if front < 0 and pano:  # the half plane x = 0 behind a panoramic camera is its branch cut
            (ctx.pos if xs == "pos" else ctx.neg)(x)
    return vec(ctx, [x, y, z])


def h_eq(ctx, kind, shape, form, fronts, hide):
    I = intr(ctx)
    p = projection(ctx, kind, I)
    pts = np.empty(shape, dtype=dt(ctx))
    for n, i in enumerate(np.ndindex(*shape[:-1])):
        pts[i] = cpoint(ctx, n, fronts[n % len(fronts)], "pos" if n % 2 else "neg", kind != "rect")
    arg = pts.tolist() if form == "list" else pts.copy()
    got = p.imageFromCamera(arg) if hide is None else p.imageFromCamera(arg, hide_backpoints=hide)
    ctx.prove("shape", got.shape == shape[:-1] + (2,), str(got.shape))
    for n, i in enumerate(np.ndindex(*shape[:-1])):
        f = fronts[n % len(fronts)]
        if kind == "rect" and f < 0 and hide is not False:
            ctx.is_nan("points behind a pin-hole camera are hidden", got[i])
        else:
            ctx.eq("documented projection", got[i], proj_doc(ctx, kind, I, pts[i]))


def h_cam(ctx, kind, n, hide):
    """the camera applies pose, projection and lens in this order"""
    cam, I, P = camera(ctx, kind)
    R = R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"])
    t = tvec(ctx, P)
    fr = [1, -1][:n] if hide is not None else [1] * n
    c = [cpoint(ctx, i, fr[i], "pos", kind != "rect") for i in range(n)]
    sp = stack(ctx, [t + np.dot(R.T, x) for x in c])
    got = cam.imageFromSpace(sp) if hide is None else cam.imageFromSpace(sp, hide_backpoints=hide)
    for i in range(n):
        if kind == "rect" and fr[i] < 0 and hide is not False:
            ctx.is_nan("points behind a pin-hole camera are hidden", got[i])
        else:
            ctx.eq("image = projection(pose(space))", got[i], proj_doc(ctx, kind, I, c[i]), tol=1e-5)


def instances(tier):
    out = []
    for kind in KINDS:
        for shape, form, fronts in (((3,), "array", (1,)), ((3,), "list", (-1,)), ((1, 3), "array", (1,)), ((2, 3), "list", (1, -1)), ((3, 3), "array", (-1, 1, 1)), ((2, 2, 3), "array", (1, 1, -1, 1))):
            for hide in (None, True, False):
                if hide is not None and len(fronts) > 3:
                    continue
                out.append(dict(name="eq-%s-%s-%s-%s" % (kind, "x".join(map(str, shape)), "".join("+" if s > 0 else "-" for s in fronts), hide), fn=h_eq,
                                args=dict(kind=kind, shape=shape, form=form, fronts=fronts, hide=hide), weight=len(fronts)))
        if kind != "rect":
            out.append(dict(name="side-%s" % kind, fn=h_eq, args=dict(kind=kind, shape=(2, 3), form="array", fronts=(0, 0), hide=None), weight=2))
            out.append(dict(name="side1-%s" % kind, fn=h_eq, args=dict(kind=kind, shape=(3,), form="list", fronts=(0,), hide=None), weight=2))
        for n, hide in ((1, None), (2, True), (2, False)):
            out.append(dict(name="cam-%s-%d-%s" % (kind, n, hide), fn=h_cam, args=dict(kind=kind, n=n, hide=hide), weight=5))
    return out
