"""C03: image -> space -> image under a constraint."""
import numpy as np
from .common import *

META = dict(bounds="pose, focal length and pixel bounds as in C02; constraint X, Y, Z (scalar, list or array, one per point) or distance D; 1 to 3 pixels "
                   "per call; target between 0.001 and 1000 ray lengths in front of or behind the camera (every constraint value is of the form "
                   "position + k*ray component)")


def setup(ctx, kind, shape, sects):
    cam, I, P = camera(ctx, kind)
    pix, nats = pixels(ctx, kind, I, shape, sects)
    t = tvec(ctx, P)
    R = R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"])
    d = [np.dot(R.T, ray_doc(ctx, kind, *u)) for u in nats]
    return cam, pix, t, d, nats


def h_each(ctx, kind, axis, shape, form, signs, sects):
    """one constraint value per point"""
    cam, pix, t, d, nats = setup(ctx, kind, shape, sects)
    c, exp = [], []
    ai = "XYZ".index(axis)
    for n in range(len(d)):
        k = ctx.real("k%d" % n, 0.001, 1000, prefer=(0.5, 50)) if signs[n] > 0 else ctx.real("k%d" % n, -1000, -0.001, prefer=(-50, -0.5))
        if ctx.symbolic:
            ctx.nonzero(d[n][ai])
        else:
            ctx.assume(abs(d[n][ai]) > 1e-3)
        c.append(t[ai] + k * d[n][ai])
        exp.append(t + k * d[n])
    arg = c[0] if len(shape) == 1 else list(c) if form == "list" else vec(ctx, c)
    kw = {axis: arg}
    if axis != "Z":
        kw["Z"] = None
    got = cam.spaceFromImage(pix, **kw) if form != "defaultZ" else cam.spaceFromImage(pix, **{axis: arg})
    ctx.prove("shape", got.shape == shape[:-1] + (3,), str(got.shape))
    got = got.reshape(-1, 3)
    back = cam.imageFromSpace(got).reshape(-1, 2)
    for n in range(len(d)):
        if signs[n] > 0:
            ctx.eq("the point has the constrained coordinate", got[n][ai], c[n])
            ctx.eq("the point lies on the ray of the pixel", got[n], exp[n])
            ctx.eq("the point projects back to the pixel", back[n], pix.reshape(-1, 2)[n])
        else:
            ctx.is_nan("constraint behind the camera gives nan", got[n])


def h_scalar(ctx, kind, axis, sects, signs):
    """one scalar constraint for all points; also the default Z=0.  signs: of the constraint relative to the camera and of the two rays"""
    ai = "XYZ".index(axis[0])
    h = ctx.real("h", 0.001, 1000, prefer=(0.5, 50)) if signs[0] > 0 else ctx.real("h", -1000, -0.001, prefer=(-50, -0.5))
    I, P = intr(ctx), pose(ctx)
    if axis == "Zdefault":
        P["elevation_m"] = -h
    cam = camera(ctx, kind, I, P)[0]
    pix, nats = pixels(ctx, kind, I, (2, 2), sects)
    t = tvec(ctx, P)
    R = R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"])
    d = [np.dot(R.T, ray_doc(ctx, kind, *u)) for u in nats]
    for n in range(2):
        (ctx.pos if signs[n + 1] > 0 else ctx.neg)(d[n][ai])
        if not ctx.symbolic:
            ctx.assume(abs(d[n][ai]) > 1e-3)
    if axis == "Zdefault":
        got = cam.spaceFromImage(pix)
        c = 0
    else:
        c = t[ai] + h
        kw = {axis: c}
        if axis != "Z":
            kw["Z"] = None
        got = cam.spaceFromImage(pix, **kw)
    for n in range(2):
        # the constraint lies in front of the camera iff h and the ray component have the same sign
        if signs[0] * signs[n + 1] < 0:
            ctx.is_nan("constraint behind the camera gives nan", got[n])
        else:
            ctx.eq("the point has the constrained coordinate", got[n][ai], c)
            ctx.eq("the point lies on the line of the ray", cross(ctx, got[n] - t, d[n]), np.zeros(3))


def h_dist(ctx, kind, shape, form, signs, sects):
    cam, pix, t, d, nats = setup(ctx, kind, shape, sects)
    rays = [ray_doc(ctx, kind, *u) for u in nats]
    D, exp = [], []
    for n in range(len(d)):
        D.append(ctx.real("D%d" % (0 if form == "scalar" else n), 0.001, 10000, prefer=(0.5, 500)) if signs[n] > 0 else ctx.real("D%d" % n, -1000, -0.001))
        exp.append(t + d[n] * (D[n] / norm(ctx, rays[n])))
    arg = D[0] if form == "scalar" else vec(ctx, D)
    got = cam.spaceFromImage(pix, D=arg)
    ctx.prove("shape", got.shape == shape[:-1] + (3,), str(got.shape))
    got = got.reshape(-1, 3)
    back = cam.imageFromSpace(got).reshape(-1, 2)
    for n in range(len(d)):
        if signs[n] > 0:
            ctx.eq("the point lies on the ray in the distance D", got[n], exp[n])
            ctx.eq("the point projects back to the pixel", back[n], pix.reshape(-1, 2)[n])
        else:
            ctx.is_nan("negative distance gives nan", got[n])


def instances(tier):
    out = []
    for kind in KINDS:
        for axis in "XYZ":
            for shape, form, signs, sects in (((2,), "scalar", (1,), ("front",)), ((2,), "scalar", (-1,), ("right",)), ((2,), "defaultZ", (1,), ("left",)),
                                              ((1, 2), "array", (1,), ("front",)), ((2, 2), "list", (1, -1), ("front", "left")), ((3, 2), "array", (-1, 1, 1), ("left", "right", "front"))):
                if form == "defaultZ" and axis == "Z":
                    continue
                out.append(dict(name="%s-%s-%s-%s%s" % (kind, axis, "x".join(map(str, shape)), form, "".join("+" if s > 0 else "-" for s in signs)), fn=h_each,
                                args=dict(kind=kind, axis=axis, shape=shape, form=form, signs=signs, sects=sects), weight=len(signs)))
            for signs in ((1, 1, 1), (1, 1, -1), (-1, -1, 1), (-1, -1, -1)):
                out.append(dict(name="%s-%s-onevalue%s" % (kind, axis, "".join("+" if x > 0 else "-" for x in signs)), fn=h_scalar,
                                args=dict(kind=kind, axis=axis, sects=("front", "right"), signs=signs), weight=3))
        for signs in ((-1, -1, -1), (-1, 1, -1), (1, 1, -1)):
            out.append(dict(name="%s-default-Z0%s" % (kind, "".join("+" if x > 0 else "-" for x in signs)), fn=h_scalar,
                            args=dict(kind=kind, axis="Zdefault", sects=("front", "left"), signs=signs), weight=3))
        for shape, form, signs in (((2,), "scalar", (1,)), ((2,), "scalar", (-1,)), ((2, 2), "scalar", (1, 1)), ((2, 2), "array", (1, -1)), ((3, 2), "array", (1, 1, 1)), ((3, 2), "scalar", (1, 1, 1))):
            out.append(dict(name="%s-D-%s-%s%s" % (kind, "x".join(map(str, shape)), form, "".join("+" if s > 0 else "-" for s in signs)), fn=h_dist,
                            args=dict(kind=kind, shape=shape, form=form, signs=signs, sects=("front", "left", "right")), weight=4))
    return out
