"""C02: pixel -> ray -> pixel."""
import numpy as np
from .common import *

META = dict(bounds="focal lengths 0.1..1e5 px, centre +-1e4 px, pixel angles |alpha|<=3.14 rad (panoramic, 0.02 deg left out around the exact side "
                   "directions), |beta|<=1.57 rad (equirectangular), slopes up to 100 (rectilinear); pose as in C01; 1 to 4 pixels per call, shapes "
                   "(2,), (1,2), (2,2), (3,2), (2,2,2); any distance factor 0.001..1000 along the ray")


def h_proj(ctx, kind, shape, form, normed, sects):
    I = intr(ctx)
    p = projection(ctx, kind, I)
    pix, nats = pixels(ctx, kind, I, shape, sects)
    exp = np.empty(shape[:-1] + (3,), dtype=dt(ctx))
    for n, i in enumerate(np.ndindex(*shape[:-1])):
        r = ray_doc(ctx, kind, *nats[n])
        if normed:
            r = r / norm(ctx, r)
        exp[i] = r
    got = p.getRay(pix.tolist() if form == "list" else pix.copy(), normed=normed)
    ctx.eq("documented ray" if not normed else "documented unit ray", got, exp)
    k = ctx.real("k", 0.001, 1000, prefer=(0.1, 50))
    ctx.eq("ray projects back to the pixel", p.imageFromCamera(got * k), pix)


def h_cam(ctx, kind, shape, sects):
    cam, I, P = camera(ctx, kind)
    pix, nats = pixels(ctx, kind, I, shape, sects)
    off, d = cam.getRay(pix)
    ctx.eq("rays start at the camera position", off, tvec(ctx, P))
    ctx.eq("getPos", cam.getPos(), tvec(ctx, P))
    k = ctx.real("k", 0.001, 1000, prefer=(0.1, 50))
    ctx.eq("points on the ray project to the pixel", cam.imageFromSpace(off + d * k), pix)


def h_cam_norm(ctx, kind, shape, sects):
    cam, I, P = camera(ctx, kind)
    pix, nats = pixels(ctx, kind, I, shape, sects)
    off, d = cam.getRay(pix)
    off, u = cam.getRay(pix, normed=True)
    ctx.eq("unit rays start at the camera position", off, tvec(ctx, P))
    for n, i in enumerate(np.ndindex(*shape[:-1])):
        ctx.eq("unit length", dot(u[i], u[i]), ctx.const(1))
        ctx.eq("parallel to the unnormed ray", cross(ctx, u[i], d[i]), np.zeros(3))
        ctx.gt0("same sense as the unnormed ray", dot(u[i], d[i]))


def instances(tier):
    out = []
    for kind in KINDS:
        for shape in ((2,), (1, 2), (2, 2), (3, 2), (2, 2, 2)):
            s = "x".join(map(str, shape))
            ss = [("front",)] if kind == "rect" else [("front",), ("left",), ("right",)] if shape == (2,) else [("left", "front", "right")]
            for sects in ss:
                for normed in (False, True):
                    out.append(dict(name="proj-%s-%s-%s%s" % (kind, s, sects[0], "-normed" if normed else ""), fn=h_proj,
                                    args=dict(kind=kind, shape=shape, form="list" if shape == (2, 2) else "array", normed=normed, sects=sects), weight=3))
        for shape in ((2,), (2, 2), (3, 2)):
            s = "x".join(map(str, shape))
            ss = [("front",)] if kind == "rect" else [("front",), ("left",), ("right",)] if shape == (2,) else [("front", "left", "right")]
            for sects in ss:
                out.append(dict(name="cam-%s-%s-%s" % (kind, s, sects[0]), fn=h_cam, args=dict(kind=kind, shape=shape, sects=sects), weight=5))
        out.append(dict(name="cam-normed-%s" % kind, fn=h_cam_norm, args=dict(kind=kind, shape=(2, 2), sects=("front", "right")), weight=5))
    return out
