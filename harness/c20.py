"""C20: rotating or scaling the space leaves the images unchanged."""
import numpy as np
from .common import *
from .c18 import state

META = dict(bounds="every pose (position within +-1000 m, heights -100..10000 m, any tilt/roll, heading within +-1000 deg), rotations within +-720 deg, scale factors 0.001..1000, one or two operations after each other, points within +-500 m; all projections; "
                   "groups of two cameras with own or shared projection and orientation",
            assumptions=["SpatialOrientation (rotateSpace turns heading_deg, which the yaw/pitch/roll orientation does not have)"])


def turned(ctx, p, d):
    """clockwise (seen from above)"""
    s, c = ctx.sind(d), ctx.cosd(d)
    return vec(ctx, [c * p[0] + s * p[1], -s * p[0] + c * p[1], p[2]])


def h_rotate(ctx, n, dtype="real"):
    ct = ctx.ct
    cam, I, P = camera(ctx, "rect", P=pose(ctx, wide=True))
    p = vec(ctx, ctx.vec("p", 3, -500, 500, prefer=(-60, 60)))
    before = cam.orientation.cameraFromSpace(p)
    pos = cam.getPos()
    st = state(cam)
    q, total = p, 0
    for i in range(n):
        d = ctx.deg("d%d" % i, -720, 720) if dtype == "real" else (90, -180, 30)[i]
        cam.rotateSpace(d)
        q = turned(ctx, q, d)
        total = total + d
    ctx.eq("a rotated point keeps its camera coordinates", cam.orientation.cameraFromSpace(q), before)
    ctx.eq("the camera position is rotated", cam.getPos(), turned(ctx, pos, total))
    ctx.eq("the ray origin is the rotated position", cam.orientation.spaceFromCamera([0, 0, 0]), turned(ctx, pos, total))
    for a in (0, 1):
        v = [ctx.sind, ctx.cosd][a]
        ctx.eq("the heading turns clockwise by the angle", v(cam.heading_deg), v(P["heading_deg"] + total))
    now = state(cam)
    for k in st:
        if not any(x in k for x in ("heading_deg", "pos_x_m", "pos_y_m")):
            ctx.prove("nothing else changes", now[k] is st[k] or bool(now[k] == st[k]), k)


def h_rotate_image(ctx, kind):
    """the same, seen in the image"""
    cam, I, P = camera(ctx, kind)
    R = R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"])
    c = vec(ctx, [ctx.real("c0", -100, 100, prefer=(-3, 3)), ctx.real("c1", -100, 100, prefer=(-3, 3)), ctx.real("c2", -100, -0.1, prefer=(-30, -1))])
    p = np.dot(R.T, c) + tvec(ctx, P)
    before = cam.imageFromSpace(p)
    d = ctx.deg("d", -720, 720)
    cam.rotateSpace(d)
    ctx.eq("a rotated point keeps its pixel", cam.imageFromSpace(turned(ctx, p, d)), before)


def h_rotate_back(ctx):
    cam, I, P = camera(ctx, "rect")
    d = ctx.deg("d", -720, 720)
    cam.rotateSpace(d)
    cam.rotateSpace(-d)
    ctx.eq("rotating back restores the position", cam.getPos(), tvec(ctx, P))
    ctx.eq("rotating back restores the orientation", cam.orientation.R, R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"]))


def h_scale(ctx, share, n):
    ct = ctx.ct
    kinds = ("rect", "cyl")
    I = [intr(ctx, "a"), intr(ctx, "b")]
    P = [pose(ctx, "a"), pose(ctx, "b")]
    if share == "orientation":
        P[1] = P[0]
    proj = [projection(ctx, kinds[i], I[i]) for i in range(2)]
    if share == "projection":
        proj = proj[0]
    if share == "orientation":
        ori = ct.SpatialOrientation(**P[0])
    elif share == "orientation-twice":
        o = ct.SpatialOrientation(**P[0])
        ori, P[1] = [o, o], P[0]
    else:
        ori = [ct.SpatialOrientation(**p) for p in P]
    G = ct.CameraGroup(proj, ori)
    ctx.prove("two cameras", len(G) == 2)
    before = [state(c) for c in G]
    f = 1
    for i in range(n):
        k = ctx.real("k%d" % i, 0.001, 1000, prefer=(0.2, 5))
        G.scaleSpace(k)
        f = f * k
    p = vec(ctx, ctx.vec("p", 3, -500, 500, prefer=(-60, 60)))
    for i in range(2):
        ctx.eq("the position is scaled", G[i].getPos(), tvec(ctx, P[i]) * f)
        R = R_doc(ctx, *[P[i][a + "_deg"] for a in ("tilt", "roll", "heading")])
        ctx.eq("a scaled point has scaled camera coordinates (and so the same pixel)", G[i].orientation.cameraFromSpace(p * f), np.dot(R, p - tvec(ctx, P[i])) * f)
        ctx.eq("the rays start at the scaled position", G[i].orientation.spaceFromCamera([0, 0, 0]), tvec(ctx, P[i]) * f)
        now = state(G[i])
        for k in now:
            if not any(x in k for x in ("elevation_m", "pos_x_m", "pos_y_m")):
                ctx.prove("nothing else changes", now[k] is before[i][k] or bool(now[k] == before[i][k]), k)


def h_scale_image(ctx, kind):
    ct = ctx.ct
    I = intr(ctx)
    P = [pose(ctx, "a"), pose(ctx, "b")]
    G = ct.CameraGroup(projection(ctx, kind, I), [ct.SpatialOrientation(**p) for p in P])
    R = R_doc(ctx, *[P[0][a + "_deg"] for a in ("tilt", "roll", "heading")])
    c = vec(ctx, [ctx.real("c0", -100, 100, prefer=(-3, 3)), ctx.real("c1", -100, 100, prefer=(-3, 3)), ctx.real("c2", -100, -0.1, prefer=(-30, -1))])
    p = np.dot(R.T, c) + tvec(ctx, P[0])
    before = G[0].imageFromSpace(p)
    base = G.getBaseline()
    k = ctx.real("k", 0.001, 1000, prefer=(0.2, 5))
    if not ctx.symbolic:
        ctx.assume(abs(c[2] * k) > 1e-6)
    else:
        ctx.pos(-c[2] * k - 1e-10)
    G.scaleSpace(k)
    ctx.eq("a scaled point keeps its pixel", G[0].imageFromSpace(p * k), before)
    ctx.eq("the baseline is scaled", G.getBaseline(), base * k)


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k))
    for n in (1, 2) + ((3,) if tier != "quick" else ()):
        add("rotate-%d" % n, h_rotate, n=n)
        add("rotate-int-%d" % n, h_rotate, n=n, dtype="int")
    for kind in KINDS:
        add("rotate-image-%s" % kind, h_rotate_image, kind=kind)
        add("scale-image-%s" % kind, h_scale_image, kind=kind)
    add("rotate-back", h_rotate_back)
    for share in ("none", "projection", "orientation", "orientation-twice"):
        for n in (1, 2):
            add("scale-%s-%d" % (share, n), h_scale, share=share, n=n)
    return out
