"""C25: the look-up table of areas covered by pixels."""
import numpy as np
from .common import *

META = dict(bounds="images of 1x1 to 3x2 pixels (thorough: 4x3), whole image or one value per line, intrinsics as in C02, heights -100..10000 m except 0, tilt symbolic with roll and heading 0 / roll symbolic with fixed tilt / all symbolic for one pixel; "
                   "pixels whose square is completely, partly or not at all on the ground; any fill value",
            assumptions=["a pixel square with a corner that does not reach the ground is undefined"])


def corner_rays(ctx, kind, I, R, x, y):
    out = []
    for dx, dy in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5)):
        ua = (x + dx - I["center_x_px"]) / I["focallength_x_px"]
        ub = (y + dy - I["center_y_px"]) / I["focallength_y_px"]
        out.append(np.dot(R.T, ray_doc(ctx, kind, ua, ub)))
    return out


def area(ctx, ele, rays):
    pts = []
    for d in rays:
        if not ctx.symbolic:
            ctx.assume(abs(d[2]) > 1e-6)
        k = -ele / d[2]
        if k < 0:
            return None
        pts.append((d[0] * k, d[1] * k))
    # shoelace formula
    s = 0
    for i in range(4):
        a, b = pts[i], pts[(i + 1) % 4]
        s = s + a[0] * b[1] - a[1] * b[0]
    return s / 2


def h_lut(ctx, kind, size, whole, sym, fixed=dict(tilt=60., roll=0., heading=0.), undef=None, updown=1):
    A = {n: ctx.deg(n, -360, 360) if n in sym else fixed[n] for n in ("tilt", "roll", "heading")}
    I = intr(ctx)
    if kind != "rect":
        # pixels as multiples of one free angle
        a = ctx.deg("alpha", 0.1, 10)
        I["focallength_x_px"] = 1 / (a * ctx.pi / 180)
        I["center_x_px"] = size[0] / 2 if not whole else (size[0] - 1) / 2
        if kind == "equi":
            b = ctx.deg("beta", 0.1, 10)
            I["focallength_y_px"] = 1 / (b * ctx.pi / 180)
            I["center_y_px"] = (size[1] - 1) / 2
    ele = ctx.real("ele", 0.1, 10000, prefer=(1, 60)) if updown > 0 else ctx.real("ele", -100, -0.1)
    P = dict(elevation_m=ele, pos_x_m=ctx.real("px", -1000, 1000), pos_y_m=ctx.real("py", -1000, 1000), **{n + "_deg": v for n, v in A.items()})
    R = R_doc(ctx, A["tilt"], A["roll"], A["heading"])
    w, h = size
    exp = {}
    for y in range(h):
        for x in (range(w) if whole else (w / 2,)):
            rays = corner_rays(ctx, kind, I, R, x, y)
            for d in rays:
                ctx.nonzero(d[2])
            exp[x, y] = area(ctx, ele, rays)
    cam, _, _ = camera(ctx, kind, I, P, image=size)
    args = {}
    if undef is not None:
        args["undef_value"] = u = ctx.real("undef", -10, 10) if undef == "sym" else np.nan
    else:
        u = 0
    if whole:
        args["whole_image"] = True
    got = cam.generateLUT(**args)
    ctx.prove("one value per line, or per pixel [line, column]", np.shape(got) == ((h, w) if whole else (h,)), str(np.shape(got)))
    for (x, y), e in exp.items():
        g = got[y, x] if whole else got[y]
        if e is None:
            if undef == "nan":
                ctx.is_nan("a pixel that is not on the ground gets the given value", g)
            else:
                ctx.eq("a pixel that is not on the ground gets the given value", g, u)
        elif kind == "equi":
            ctx.ge0("an area is not negative", g)
            ctx.eq("the area of the pixel's square on the ground (squared)", g * g, e * e, tol=1e-5)
        else:
            ctx.eq("the area of the pixel's square on the ground", g, abs(e), tol=1e-5)


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, opts=dict(feas_ms=100)))
    for undef in (None, "sym", "nan"):
        add("line-1-%s" % undef, h_lut, kind="rect", size=(4, 1), whole=False, sym=("tilt", "roll", "heading"), undef=undef)
        add("line-3-%s" % undef, h_lut, kind="rect", size=(5, 3), whole=False, sym=("tilt",), undef=undef)
        add("whole-%s" % undef, h_lut, kind="rect", size=(3, 2), whole=True, sym=("tilt",), undef=undef)
    add("line-2-roll", h_lut, kind="rect", size=(5, 2), whole=False, sym=("roll",))
    add("line-2-below", h_lut, kind="rect", size=(4, 2), whole=False, sym=("tilt",), updown=-1)
    add("whole-roll", h_lut, kind="rect", size=(2, 3), whole=True, sym=("roll", "heading"))
    for kind in ("cyl", "equi"):
        add("line-%s" % kind, h_lut, kind=kind, size=(4, 2), whole=False, sym=("tilt",))
        add("whole-%s" % kind, h_lut, kind=kind, size=(2, 1), whole=True, sym=("tilt", "heading"))
    if tier != "quick":
        add("line-5", h_lut, kind="rect", size=(6, 5), whole=False, sym=("tilt", "heading"), undef="sym")
        add("whole-4x3", h_lut, kind="rect", size=(4, 3), whole=True, sym=("tilt",), undef="sym")
        add("whole-1-all", h_lut, kind="rect", size=(1, 1), whole=True, sym=("tilt", "roll", "heading"))
    return out
