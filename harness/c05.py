"""C05: field of view <-> focal length <-> image size."""
import numpy as np
from .common import *

META = dict(bounds="image sizes 1..1e5 px (any real), focal lengths 0.1..1e5 px, view angles 0.1..179 deg (pin-hole directions) or 0.1..360 deg (panoramic directions)")


def lim(kind, axis):
    return 179 if kind == "rect" or (kind == "cyl" and axis == "y") else 360


def size(ctx):
    return ctx.real("w", 1, 100000, prefer=(20, 5000)), ctx.real("h", 1, 100000, prefer=(20, 5000))


def cls(ctx, kind):
    return getattr(ctx.ct, CLS[kind])


def h_from_f(ctx, kind):
    """field of view of given focal lengths, and both inverses"""
    w, h = size(ctx)
    fx = ctx.real("fx", 0.1, 100000, prefer=(50, 5000))
    fy = ctx.real("fy", 0.1, 100000, prefer=(50, 5000))
    p = cls(ctx, kind)(focallength_x_px=fx, focallength_y_px=fy, image=(w, h))
    vx, vy = p.getFieldOfView()
    if kind == "rect":
        ctx.eq("tan(view_x/2) = w/2/fx", ctx.sind(vx / 2) * 2 * fx, ctx.cosd(vx / 2) * w)
    else:
        ctx.eq("view_x = w/fx", vx * ctx.pi * fx, 180 * w)
    if kind == "equi":
        ctx.eq("view_y = h/fy", vy * ctx.pi * fy, 180 * h)
    else:
        ctx.eq("tan(view_y/2) = h/2/fy", ctx.sind(vy / 2) * 2 * fy, ctx.cosd(vy / 2) * h)
    ctx.eq("focal length of the field of view x", p.focallengthFromFOV(view_x=vx), fx)
    ctx.eq("focal length of the field of view y", p.focallengthFromFOV(view_y=vy), fy)
    ctx.eq("image width of the field of view", p.imageFromFOV(view_x=vx), w)
    ctx.eq("image height of the field of view", p.imageFromFOV(view_y=vy), h)


def h_from_view(ctx, kind, mode):
    w, h = size(ctx)
    vx = ctx.real("vx", 0.1, lim(kind, "x"), prefer=(1, 170))
    vy = ctx.real("vy", 0.1, lim(kind, "y"), prefer=(1, 170))
    kw = {}
    if "x" in mode:
        kw["view_x_deg"] = vx
    if "y" in mode:
        kw["view_y_deg"] = vy
    p = cls(ctx, kind)(image=(w, h), **kw)
    gx, gy = p.getFieldOfView()
    if "x" in mode:
        ctx.eq("the projection has the requested horizontal view", gx, vx)
        if kind == "rect":
            ctx.eq("fx of the view", p.focallength_x_px * 2 * ctx.sind(vx / 2), w * ctx.cosd(vx / 2))
        else:
            ctx.eq("fx of the view", p.focallength_x_px * vx * ctx.pi, 180 * w)
    if "y" in mode:
        ctx.eq("the projection has the requested vertical view", gy, vy)
        if kind == "equi":
            ctx.eq("fy of the view", p.focallength_y_px * vy * ctx.pi, 180 * h)
        else:
            ctx.eq("fy of the view", p.focallength_y_px * 2 * ctx.sind(vy / 2), h * ctx.cosd(vy / 2))
    if mode in ("x", "y"):
        ctx.eq("square pixels if only one view angle is given", p.focallength_x_px, p.focallength_y_px)
    ctx.eq("image size kept", [p.image_width_px, p.image_height_px], [w, h])
    ctx.eq("centre in the middle", [p.center_x_px, p.center_y_px], [w / 2, h / 2])


def h_queries(ctx, kind):
    """view -> focal length and view -> image size are the inverse relations for any angle"""
    w, h = size(ctx)
    fx = ctx.real("fx", 0.1, 100000, prefer=(50, 5000))
    fy = ctx.real("fy", 0.1, 100000, prefer=(50, 5000))
    vx = ctx.real("vx", 0.1, lim(kind, "x"), prefer=(1, 170))
    vy = ctx.real("vy", 0.1, lim(kind, "y"), prefer=(1, 170))
    C = cls(ctx, kind)
    p = C(focallength_x_px=fx, focallength_y_px=fy, image=(w, h))
    a, b = p.focallengthFromFOV(view_x=vx), p.focallengthFromFOV(view_y=vy)
    q = C(focallength_x_px=a, focallength_y_px=b, image=(w, h))
    ctx.eq("focal length from view, then view x", q.getFieldOfView()[0], vx)
    ctx.eq("focal length from view, then view y", q.getFieldOfView()[1], vy)
    W, H = p.imageFromFOV(view_x=vx), p.imageFromFOV(view_y=vy)
    q = C(focallength_x_px=fx, focallength_y_px=fy, image=(W, H))
    ctx.eq("image size from view, then view x", q.getFieldOfView()[0], vx)
    ctx.eq("image size from view, then view y", q.getFieldOfView()[1], vy)


def h_edge(ctx, kind):
    """half of the field of view is the angle between the optical axis and the ray of the image edge"""
    w, h = size(ctx)
    fx = ctx.real("fx", 0.1, 100000, prefer=(50, 5000))
    fy = ctx.real("fy", 0.1, 100000, prefer=(50, 5000))
    if kind != "rect":
        # up to 360 degrees
        ctx.assume(w <= fx * 6.28)
    if kind == "equi":
        ctx.assume(h <= fy * 3.14)
    p = cls(ctx, kind)(focallength_x_px=fx, focallength_y_px=fy, image=(w, h))
    vx, vy = p.getFieldOfView()
    r = p.getRay([w, h / 2])
    ctx.eq("right edge", vec(ctx, [r[0] * ctx.cosd(vx / 2) + r[2] * ctx.sind(vx / 2), r[1]]), np.zeros(2))
    r = p.getRay([w / 2, h])
    ctx.eq("bottom edge", vec(ctx, [r[1] * ctx.cosd(vy / 2) - r[2] * ctx.sind(vy / 2), r[0]]), np.zeros(2))


def instances(tier):
    out = []
    for kind in KINDS:
        out.append(dict(name="from-focallength-%s" % kind, fn=h_from_f, args=dict(kind=kind)))
        for mode in ("x", "y", "xy"):
            out.append(dict(name="from-view-%s-%s" % (kind, mode), fn=h_from_view, args=dict(kind=kind, mode=mode)))
        out.append(dict(name="queries-%s" % kind, fn=h_queries, args=dict(kind=kind)))
        out.append(dict(name="edge-%s" % kind, fn=h_edge, args=dict(kind=kind)))
    return out
