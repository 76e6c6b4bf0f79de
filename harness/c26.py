"""C26: image border and viewing cone."""
import numpy as np
from .common import *
from .c19 import same

META = dict(bounds="border: images of 1..50 x 1..50 px (any real size), resolutions that divide the border into 1 to 4 steps per side, also larger than the image; cone: image sizes 1..10000 px, distances 0.01..1000 m, any pose, all projections with corners "
                   "in front of the camera; cone on the ground: images of 2x2 and 3x2 px, any tilt and heading, rectilinear projection (panoramas: 2x1 px)",
            assumptions=["the last piece of the cone (from the camera to the starting point again) is left open: the code returns an undefined end point there"])


def h_border(ctx, nx, ny, attr):
    """nx, ny: number of steps that a side takes"""
    w, h = ctx.real("w", 1, 50), ctx.real("h", 1, 50)
    r = ctx.real("res", 0.1, 100)
    for n, s in ((nx, w), (ny, h)):
        ctx.pos(s - (n - 1) * r) if n > 1 else None
        ctx.nonneg(n * r - s)
        if not ctx.symbolic:
            ctx.assume(s - (n - 1) * r > 1e-6 and n * r - s > 1e-6)
    cam, I, P = camera(ctx, "rect", P=dict(elevation_m=10, tilt_deg=60., heading_deg=0., roll_deg=0., pos_x_m=0, pos_y_m=0), image=(10, 10))
    if attr == "camera":
        cam.image_width_px, cam.image_height_px = w, h
    else:
        cam.projection.image_width_px, cam.projection.image_height_px = w, h
    exp = [[0, j * r] for j in range(ny)] + [[i * r, h] for i in range(nx)] + [[w, h - j * r] for j in range(ny)] + [[w - i * r, 0] for i in range(nx)]
    got = cam.getImageBorder(resolution=r)
    ctx.prove("the border has the points of all four sides", np.shape(got) == (len(exp), 2), str(np.shape(got)))
    ctx.eq("the points go around the image in steps of the resolution", got, mat(ctx, exp))


def h_border_default(ctx, size):
    cam, I, P = camera(ctx, "rect", image=size)
    w, h = size
    exp = [[0, j] for j in range(h)] + [[i, h] for i in range(w)] + [[w, h - j] for j in range(h)] + [[w - i, 0] for i in range(w)]
    ctx.eq("without a resolution every pixel of the border", np.array(cam.getImageBorder()), mat(ctx, exp))


def h_cone(ctx, kind, default):
    I = intr(ctx)
    w, h = (ctx.real("w", 1, 10000, prefer=(100, 800)), ctx.real("h", 1, 10000, prefer=(100, 800))) if kind == "rect" else (None, None)
    if kind != "rect":
        # panoramas: edges under half of a free angle, centred
        a, b = ctx.deg("alpha", 1, 90), ctx.deg("beta", 1, 80)
        w = 2 * I["focallength_x_px"] * a * ctx.pi / 180
        I["center_x_px"] = w / 2
        h = 2 * I["focallength_y_px"] * (b * ctx.pi / 180 if kind == "equi" else 1)
        I["center_y_px"] = h / 2
    cam, I, P = camera(ctx, kind, I, image=(w, h))
    D = 1 if default else ctx.real("D", 0.01, 1000, prefer=(1, 30))
    got = cam.getCameraCone() if default else cam.getCameraCone(D=D)
    R = R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"])
    t = tvec(ctx, P)
    corners = []
    for x, y in ((0, h), (w, h), (w, 0), (0, 0), (0, h)):
        ua, ub = (x - I["center_x_px"]) / I["focallength_x_px"], (y - I["center_y_px"]) / I["focallength_y_px"]
        c = ray_doc(ctx, kind, ua, ub)
        corners.append(np.dot(R.T, c / norm(ctx, c) * D) + t)
    ctx.prove("rim and four edges", len(np.shape(got)) == 2 and np.shape(got)[1] == 3 and np.shape(got)[0] >= 5 + 3 * 4, str(np.shape(got)))
    for i in range(5):
        ctx.eq("the rim: the corners in the distance, in order", got[i], corners[i])
    for i in range(4):
        piece = got[5 + 3 * i:8 + 3 * i]
        ctx.is_nan("the pieces are separated", piece[0][0])
        ctx.eq("an edge starts at the camera", piece[1], t)
        ctx.eq("an edge ends at its corner", piece[2], corners[i])


def h_ground(ctx, kind, size, sym):
    fixed = dict(tilt=60., roll=0., heading=20.)
    A = {n: ctx.deg(n, -360, 360) if n in sym else fixed[n] for n in ("tilt", "roll", "heading")}
    I = intr(ctx)
    w, h = size
    if kind != "rect":
        a = ctx.deg("alpha", 0.1, 10)
        I["focallength_x_px"] = 1 / (a * ctx.pi / 180)
        I["center_x_px"] = w / 2
    P = dict(elevation_m=ctx.real("ele", 0.1, 10000, prefer=(1, 60)), pos_x_m=ctx.real("px", -1000, 1000, prefer=(-30, 30)), pos_y_m=ctx.real("py", -1000, 1000, prefer=(-30, 30)), **{n + "_deg": v for n, v in A.items()})
    cam, _, _ = camera(ctx, kind, I, P, image=size)
    R, t = R_doc(ctx, A["tilt"], A["roll"], A["heading"]), tvec(ctx, P)
    border = [[0, j] for j in range(h)] + [[i, h] for i in range(w)] + [[w, h - j] for j in range(h)] + [[w - i, 0] for i in range(w)]
    exp = []
    for x, y in border:
        d = np.dot(R.T, ray_doc(ctx, kind, (x - I["center_x_px"]) / I["focallength_x_px"], (y - I["center_y_px"]) / I["focallength_y_px"]))
        ctx.nonzero(d[2])
        if not ctx.symbolic:
            ctx.assume(abs(d[2]) > 1e-4)
        exp.append(d * (-t[2] / d[2]) + t if -t[2] / d[2] > 0 else vec(ctx, [np.nan] * 3))
    got = cam.getCameraCone(project_to_ground=True)
    n = len(border)
    ctx.prove("rim and four edges", len(np.shape(got)) == 2 and np.shape(got)[1] == 3 and np.shape(got)[0] >= n + 3 * 4, str(np.shape(got)))
    for i in range(n):
        same(ctx, "the rim: the ground points of the border pixels, in order", got[i], exp[i])
    for i, c in enumerate((0, h, h + w, 2 * h + w)):
        piece = got[n + 3 * i:n + 3 + 3 * i]
        ctx.is_nan("the pieces are separated", piece[0][0])
        ctx.eq("an edge starts at the camera", piece[1], t)
        same(ctx, "an edge ends at its corner", piece[2], exp[c])


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k))
    N = 4 if tier == "quick" else 7
    for nx in range(1, N + 1):
        for ny in range(1, N + 1):
            add("border-%d-%d" % (nx, ny), h_border, nx=nx, ny=ny, attr=("camera", "projection")[(nx + ny) % 2])
    for size in ((1, 1), (3, 2), (2, 5)):
        add("border-default-%dx%d" % size, h_border_default, size=size)
    for kind in KINDS:
        for default in (False, True):
            add("cone-%s-%s" % (kind, "default" if default else "distance"), h_cone, kind=kind, default=default)
    add("ground-rect-2x2", h_ground, kind="rect", size=(2, 2), sym=("tilt", "heading"))
    add("ground-rect-1x2-roll", h_ground, kind="rect", size=(1, 2), sym=("roll",))
    add("ground-rect-3x2", h_ground, kind="rect", size=(3, 2), sym=("tilt",))
    add("ground-rect-1x1", h_ground, kind="rect", size=(1, 1), sym=("tilt", "roll", "heading"))
    add("ground-cyl-2x1", h_ground, kind="cyl", size=(2, 1), sym=("tilt",))
    return out
