"""C27: distance to the horizon and its place in the image."""
import numpy as np
from .common import *

META = dict(bounds="distance: elevations -6000 km..1000 km; image rows: images of 1 to 3 lines (thorough: 4), any pose (tilt symbolic, roll or heading symbolic in some instances), elevations 0.1..10000 m and below 0, the columns given as nothing, "
                   "a number, an array or a list, all three projections, lenses none and brown for one line",
            assumptions=["the distance to the horizon is accepted between the straight line to the foot of the tangent (chord) and the tangent itself: both are in use for this quantity and the documentation does not tell which one is meant",
                         "of several rows with the same smallest height any may be returned"])
R = 6371e3


def h_distance(ctx, sign, change):
    e = ctx.real("ele", 0, 1e6) if sign > 0 else ctx.real("ele", -6e6, -0.001)
    P = pose(ctx)
    P["elevation_m"] = ctx.real("ele0", 0, 1000) if change else e
    cam, _, _ = camera(ctx, "rect", P=P)
    if change:
        cam.distanceToHorizon()
        cam.elevation_m = e
    d = cam.distanceToHorizon()
    if sign < 0:
        ctx.is_nan("from below the surface there is no horizon", d)
        return
    ctx.ge0("a distance is not negative", d)
    ctx.ge0("not nearer than the straight line to the point where the tangent touches the earth's foot point", (d * d * (1 + 1e-6) - 2 * R * R * e / (R + e)))
    ctx.ge0("not farther than the tangent", (2 * R * e + e * e) * (1 + 1e-6) - d * d)


def h_rows(ctx, kind, h, sym, cols, below=False, fixed=dict(tilt=85., roll=0., heading=0.), side=0):
    A = {n: ctx.deg(n, -360, 360) if n in sym else fixed[n] for n in ("tilt", "roll", "heading")}
    I = intr(ctx)
    ele = ctx.real("ele", 0.1, 10000, prefer=(1, 60)) if not below else ctx.real("ele", -100, -0.1)
    P = dict(elevation_m=ele, pos_x_m=ctx.real("px", -1000, 1000), pos_y_m=ctx.real("py", -1000, 1000), **{n + "_deg": v for n, v in A.items()})
    Rm = R_doc(ctx, A["tilt"], A["roll"], A["heading"])
    w = 5
    xs = dict(default=[0, w / 2, w], number=None, array=None, list=None)[cols]
    if kind == "equi":
        b = ctx.deg("beta", 0.1, 10)
        I["focallength_y_px"] = 1 / (b * ctx.pi / 180)
        I["center_y_px"] = (h - 1) / 2
    if cols == "default":
        nats = None
        if kind != "rect":
            a = ctx.deg("alpha", 0.1, 10)
            I["focallength_x_px"] = 1 / (a * ctx.pi / 180)
            I["center_x_px"] = w / 2
        uas = [(x - I["center_x_px"]) / I["focallength_x_px"] for x in xs]
    else:
        n = 1 if cols == "number" else 2
        if kind == "rect":
            uas = [ctx.real("ua%d" % i, -3, 3) for i in range(n)]
        else:
            uas = [ctx.deg("ua%d" % i, -85, 85) * ctx.pi / 180 for i in range(n)]
        xs = [I["center_x_px"] + I["focallength_x_px"] * u for u in uas]
    cam, _, _ = camera(ctx, kind, I, P, image=(w, h))
    if not below:
        ctx.pos(ele + R)
        ctx.pos(1 - R / (R + ele))
    for ua in uas:
        for row in range(h):
            c = ray_doc(ctx, kind, ua, (row - I["center_y_px"]) / I["focallength_y_px"])
            v = np.dot(Rm.T, c)
            ctx.pos(dot(c, c))
            ctx.pos(dot(v, v))
            ctx.pos(norm(ctx, c))
    d = cam.distanceToHorizon()
    if not below:
        ctx.pos(d)
    if cols == "default":
        got = cam.getImageHorizon()
    elif cols == "number":
        got = cam.getImageHorizon(xs[0])
    elif cols == "list":
        got = cam.getImageHorizon(list(xs))
    else:
        got = cam.getImageHorizon(vec(ctx, xs))
    ctx.prove("one point per column", np.shape(got) == ((2,) if cols == "number" else (len(xs), 2)), str(np.shape(got)))
    if cols == "number":
        got = [got]
    for i, (x, ua) in enumerate(zip(xs, uas)):
        ctx.eq("the point is in the column asked for", got[i][0], x)
        y = got[i][1]
        if below:
            ctx.is_nan("no horizon", y)
            continue
        y = float(y)
        ctx.prove("a row of the image", y == int(y) and 0 <= y < h, str(y))

        def height(row):
            c = ray_doc(ctx, kind, ua, (row - I["center_y_px"]) / I["focallength_y_px"])
            v = np.dot(Rm.T, c)
            return ele + d * v[2] / norm(ctx, c)
        zs = [abs(height(row)) for row in range(h)]
        best = 0
        for row in range(1, h):
            if zs[row] < zs[best]:
                best = row
        if int(y) == best:
            ctx.prove("no other row is nearer to the horizon", True)
        else:
            ctx.ge0("no other row is nearer to the horizon", zs[best] - zs[int(y)])


def instances(tier):
    out = []
    add = lambda name, fn, opts={}, **k: out.append(dict(name=name, fn=fn, args=k, opts=dict(opts)))
    for s in (1, -1):
        for c in (0, 1):
            add("distance%+d-%d" % (s, c), h_distance, sign=s, change=c)
    fast = dict(feas_ms=0, max_paths=20000)
    for cols in ("default", "number", "array", "list"):
        add("rows-1-%s" % cols, h_rows, fast, kind="rect", h=1, sym=("tilt",), cols=cols)
        add("rows-2-%s" % cols, h_rows, fast, kind="rect", h=2, sym=("tilt",), cols=cols)
        add("below-%s" % cols, h_rows, kind="rect", h=2, sym=("tilt",), cols=cols, below=True)
    add("rows-2-roll", h_rows, fast, kind="rect", h=2, sym=("roll", "heading"), cols="array")
    add("rows-3", h_rows, fast, kind="rect", h=3, sym=("tilt",), cols="number")
    for kind in ("cyl", "equi"):
        add("rows-2-%s" % kind, h_rows, fast, kind=kind, h=2, sym=("tilt",), cols="number")
        add("rows-2-%s-default" % kind, h_rows, fast, kind=kind, h=2, sym=("tilt", "heading"), cols="default")
    if tier != "quick":
        add("rows-3-all", h_rows, fast, kind="rect", h=3, sym=("tilt", "roll", "heading"), cols="number")
        add("rows-4", h_rows, fast, kind="rect", h=4, sym=("tilt",), cols="number")
    return out
