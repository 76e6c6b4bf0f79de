"""C06: equivalent ways to define a projection; conflicting ones are rejected."""
import numpy as np
from .common import *

META = dict(bounds="all given numbers are any positive reals (sizes 1..1e5 px, focal length 0.1..1e5 px or 0.1..2000 mm, sensor 0.1..1000 mm, centre 0.1..1e5 px); "
                   "example image arrays of 2 or 3 dimensions with concrete shape")

PAR = ("focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px")


def v(ctx):
    r = ctx.real
    return dict(w=r("w", 1, 100000, prefer=(20, 5000)), h=r("h", 1, 100000, prefer=(20, 5000)), f=r("f", 0.1, 100000, prefer=(50, 5000)),
                fx=r("fx", 0.1, 100000, prefer=(50, 5000)), fy=r("fy", 0.1, 100000, prefer=(50, 5000)), cx=r("cx", 0.1, 100000, prefer=(10, 3000)),
                cy=r("cy", 0.1, 100000, prefer=(10, 3000)), mm=r("mm", 0.1, 2000, prefer=(4, 200)), sw=r("sw", 0.1, 1000, prefer=(5, 40)),
                sh=r("sh", 0.1, 1000, prefer=(5, 40)), vx=r("vx", 1, 170), vy=r("vy", 1, 170))


def pars(ctx, p):
    return [getattr(p, n) for n in PAR]


def h_equiv(ctx, kind):
    d = v(ctx)
    C = getattr(ctx.ct, CLS[kind])
    w, h, f, fx, fy, cx, cy, mm, sw, sh = (d[k] for k in "w h f fx fy cx cy mm sw sh".split())

    def check(label, p, *exp):
        ctx.eq(label, pars(ctx, p), list(exp))
        # the documented projection uses exactly these numbers
        ctx.eq(label + " (parameters object)", [getattr(p.parameters, n) for n in PAR], list(exp))
    check("image tuple", C(focallength_px=f, image=(w, h)), f, f, w / 2, h / 2, w, h)
    check("image list", C(focallength_px=f, image=[w, h]), f, f, w / 2, h / 2, w, h)
    check("image width and height", C(focallength_px=f, image_width_px=w, image_height_px=h), f, f, w / 2, h / 2, w, h)
    check("focal length per direction", C(focallength_x_px=fx, focallength_y_px=fy, image=(w, h)), fx, fy, w / 2, h / 2, w, h)
    check("focal length tuple", C(focallength_px=(fx, fy), image=(w, h)), fx, fy, w / 2, h / 2, w, h)
    check("centre tuple", C(focallength_px=f, image=(w, h), center=(cx, cy)), f, f, cx, cy, w, h)
    check("centre values", C(focallength_px=f, image=(w, h), center_x_px=cx, center_y_px=cy), f, f, cx, cy, w, h)
    check("only centre x", C(focallength_px=f, image=(w, h), center_x_px=cx), f, f, cx, h / 2, w, h)
    check("only centre y", C(focallength_px=f, image=(w, h), center_y_px=cy), f, f, w / 2, cy, w, h)
    check("mm and sensor tuple", C(focallength_mm=mm, sensor=(sw, sh), image=(w, h)), mm / sw * w, mm / sh * h, w / 2, h / 2, w, h)
    check("mm and sensor values", C(focallength_mm=mm, sensor_width_mm=sw, sensor_height_mm=sh, image=(w, h)), mm / sw * w, mm / sh * h, w / 2, h / 2, w, h)
    p = C(focallength_mm=mm, sensor_width_mm=sw, image=(w, h))
    check("sensor width only: square pixels", p, mm / sw * w, mm / sw * w, w / 2, h / 2, w, h)
    ctx.eq("sensor height from the aspect ratio", p.sensor_height_mm, sw / w * h)
    p = C(focallength_mm=mm, sensor_height_mm=sh, image=(w, h))
    check("sensor height only: square pixels", p, mm / sh * h, mm / sh * h, w / 2, h / 2, w, h)
    ctx.eq("sensor width from the aspect ratio", p.sensor_width_mm, sh / h * w)


def h_view(ctx, kind):
    """the view angles stand for the focal lengths at which the image covers them"""
    d = v(ctx)
    C = getattr(ctx.ct, CLS[kind])
    w, h, fx, fy, cx, cy, sw, sh, vx, vy = (d[k] for k in "w h fx fy cx cy sw sh vx vy".split())

    def covers(label, f, size, angle, pinhole):
        if pinhole:
            ctx.eq(label, f * 2 * ctx.sind(angle / 2), size * ctx.cosd(angle / 2))
        else:
            ctx.eq(label, f * angle * ctx.pi, 180 * size)

    def x(label, p):
        covers(label + ": fx", p.focallength_x_px, w, vx, kind == "rect")

    def y(label, p):
        covers(label + ": fy", p.focallength_y_px, h, vy, kind != "equi")

    def rest(label, p, ex, ey):
        ctx.eq(label + ": centre and image", [getattr(p, n) for n in PAR[2:]], [ex, ey, w, h])
        ctx.eq(label + " (parameters object)", [getattr(p.parameters, n) for n in PAR], pars(ctx, p))
    size = dict(image=(w, h))
    for label, kw, ex, ey in (("view", size, w / 2, h / 2), ("view, width and height", dict(image_width_px=w, image_height_px=h), w / 2, h / 2),
                              ("view and centre", dict(image=(w, h), center=(cx, cy)), cx, cy),
                              ("view and sensor", dict(image=(w, h), sensor=(sw, sh)), w / 2, h / 2)):
        p = C(view_x_deg=vx, **kw)
        x("only x " + label, p)
        ctx.eq("only x " + label + ": square pixels", p.focallength_y_px, p.focallength_x_px)
        rest("only x " + label, p, ex, ey)
        p = C(view_y_deg=vy, **kw)
        y("only y " + label, p)
        ctx.eq("only y " + label + ": square pixels", p.focallength_x_px, p.focallength_y_px)
        rest("only y " + label, p, ex, ey)
        p = C(view_x_deg=vx, view_y_deg=vy, **kw)
        x("both " + label, p)
        y("both " + label, p)
        rest("both " + label, p, ex, ey)
    # a view angle in one direction and a focal length in the other
    p = C(view_x_deg=vx, focallength_y_px=fy, **size)
    x("view x with focal length y", p)
    ctx.eq("view x with focal length y: fy", p.focallength_y_px, fy)
    rest("view x with focal length y", p, w / 2, h / 2)
    p = C(view_y_deg=vy, focallength_x_px=fx, **size)
    y("view y with focal length x", p)
    ctx.eq("view y with focal length x: fx", p.focallength_x_px, fx)
    rest("view y with focal length x", p, w / 2, h / 2)


def h_image(ctx, kind):
    """an example image gives its own size (rows are the height)"""
    C = getattr(ctx.ct, CLS[kind])
    f = ctx.real("f", 0.1, 100000)
    for shape in ((30, 40), (30, 40, 3), (7, 5, 4)):
        p = C(focallength_px=f, image=np.zeros(shape, dtype="uint8"))
        ctx.eq("size of the example image", pars(ctx, p), [f, f, shape[1] / 2, shape[0] / 2, shape[1], shape[0]])


CONFLICTS = {
    "image and image_width_px": "focallength_px=f,image=(w,h),image_width_px=w",
    "image and image_height_px": "focallength_px=f,image=(w,h),image_height_px=h",
    "no image size": "focallength_px=f",
    "only the image width": "focallength_px=f,image_width_px=w",
    "only the image height": "focallength_px=f,image_height_px=h",
    "center and center_x_px": "focallength_px=f,image=(w,h),center=(cx,cy),center_x_px=cx",
    "center and center_y_px": "focallength_px=f,image=(w,h),center=(cx,cy),center_y_px=cy",
    "focallength_px and focallength_x_px": "focallength_px=f,focallength_x_px=fx,image=(w,h)",
    "focallength_px and focallength_y_px": "focallength_px=f,focallength_y_px=fy,image=(w,h)",
    "focal length in px and mm": "focallength_px=f,focallength_mm=mm,sensor=(sw,sh),image=(w,h)",
    "focal length x in px and mm": "focallength_x_px=fx,focallength_mm=mm,sensor=(sw,sh),image=(w,h)",
    "focal length y in px and mm": "focallength_y_px=fy,focallength_mm=mm,sensor=(sw,sh),image=(w,h)",
    "sensor and sensor_width_mm": "focallength_mm=mm,sensor=(sw,sh),sensor_width_mm=sw,image=(w,h)",
    "sensor and sensor_height_mm": "focallength_mm=mm,sensor=(sw,sh),sensor_height_mm=sh,image=(w,h)",
    "mm without a sensor": "focallength_mm=mm,image=(w,h)",
    "view_x and focallength_x_px": "focallength_x_px=fx,view_x_deg=vx,image=(w,h)",
    "view_x and focallength_px": "focallength_px=f,view_x_deg=vx,image=(w,h)",
    "view_y and focallength_y_px": "focallength_y_px=fy,view_y_deg=vy,image=(w,h)",
    "view_y and mm": "focallength_mm=mm,sensor=(sw,sh),view_y_deg=vy,image=(w,h)",
    "both views and focallength_x_px": "focallength_x_px=fx,view_x_deg=vx,view_y_deg=vy,image=(w,h)",
    "both views and focallength_y_px": "focallength_y_px=fy,view_x_deg=vx,view_y_deg=vy,image=(w,h)",
    "both views and focallength_px": "focallength_px=f,view_x_deg=vx,view_y_deg=vy,image=(w,h)",
    "view without image": "view_x_deg=vx",
    "center and both center values": "focallength_px=f,image=(w,h),center=(cx,cy),center_x_px=cx,center_y_px=cy",
    "view_y and focallength_px": "focallength_px=f,view_y_deg=vy,image=(w,h)",
    "view_x and mm": "focallength_mm=mm,sensor=(sw,sh),view_x_deg=vx,image=(w,h)",
    "no focal length": "image=(w,h)",
    "only focal length x": "focallength_x_px=fx,image=(w,h)",
    "only focal length y": "focallength_y_px=fy,image=(w,h)",
}


def h_conflict(ctx, kind):
    d = v(ctx)
    C = getattr(ctx.ct, CLS[kind])
    for name, expr in CONFLICTS.items():
        kw = eval("dict(%s)" % expr, dict(d))
        ctx.raises("rejected: " + name, ValueError, lambda: C(**kw))


def instances(tier):
    out = []
    for kind in KINDS:
        out.append(dict(name="equivalent-%s" % kind, fn=h_equiv, args=dict(kind=kind)))
        out.append(dict(name="view-%s" % kind, fn=h_view, args=dict(kind=kind)))
        out.append(dict(name="image-%s" % kind, fn=h_image, args=dict(kind=kind)))
        out.append(dict(name="conflict-%s" % kind, fn=h_conflict, args=dict(kind=kind)))
    return out
