"""C16: two cameras triangulate the point they both see."""
import numpy as np
from .common import *

META = dict(bounds="pin-hole, cylindrical and equirectangular cameras in all pairs, intrinsics as in C02, any tilt/roll/heading of one camera and one or two symbolic angles of the other (thorough: all three), "
                   "points 0.01..100 (units of the unnormalised ray) from each camera, ray distances up to 10; rays with an angle of more than 1e-8 rad; single pixels and batches of 1 and 2",
            assumptions=["every pair of non-parallel rays is written by the two closest points, and a position on each line"])


def angles(ctx, pre, sym, fixed):
    d = {}
    for n in ("tilt", "roll", "heading"):
        d[n] = ctx.deg(pre + n, -360, 360) if n in sym else fixed[n]
    return d


def setup(ctx, kinds, sym2, fixed2, sects, hsign, n=1, share=None, slope=2, sym1=("tilt", "roll", "heading"), fixed1=dict(tilt=90., roll=0., heading=-60.)):
    A = [angles(ctx, "a", sym1, fixed1), angles(ctx, "b", sym2, fixed2)]
    I = [intr(ctx, "a"), intr(ctx, "b") if share != "projection" else None]
    if share == "projection":
        I[1] = I[0]
    Rs = [R_doc(ctx, a["tilt"], a["roll"], a["heading"]) for a in A]
    return A, I, Rs


def group(ctx, kinds, A, I, pos, share):
    ct = ctx.ct
    P = [projection(ctx, kinds[i], I[i]) for i in range(1 if share == "projection" else 2)]
    O = [ct.SpatialOrientation(tilt_deg=A[i]["tilt"], roll_deg=A[i]["roll"], heading_deg=A[i]["heading"], pos_x_m=pos[i][0], pos_y_m=pos[i][1], elevation_m=pos[i][2]) for i in range(2)]
    return ct.CameraGroup(P[0] if share == "projection" else P, O)


def h_group(ctx, kinds, what, form, sym2, fixed2, sects=("front", "front"), hsign=0, share=None, sym1=("tilt", "roll", "heading")):
    A, I, Rs = setup(ctx, kinds, sym2, fixed2, sects, hsign, share=share, sym1=sym1)
    nats = [nat(ctx, k, "%d_" % i, s, 2) for i, (k, s) in enumerate(zip(kinds, sects))]
    c = [ray_doc(ctx, k, *u) for k, u in zip(kinds, nats)]
    v = [np.dot(R.T, r) for R, r in zip(Rs, c)]
    M = vec(ctx, [ctx.real("m%d" % i, -1000, 1000, prefer=(-30, 30)) for i in range(3)])
    s, t = ctx.real("s", 0.01, 100, prefer=(1, 20)), ctx.real("t", 0.01, 100, prefer=(1, 20))
    uu, vv, uv = dot(c[0], c[0]), dot(c[1], c[1]), dot(v[0], v[1])
    ctx.pos(uu, vv, uu * vv - uv * uv)
    n = cross(ctx, v[0], v[1])
    if not ctx.symbolic:
        ctx.assume(uu * vv - uv * uv > 1e-3 * uu * vv)
    if hsign:
        h = ctx.real("h", 0.001, 10) if hsign > 0 else ctx.real("h", -10, -0.001)
    else:
        h = 0
    pos = [M + h * n - s * v[0], M - h * n - t * v[1]]
    G = group(ctx, kinds, A, I, pos, share)
    pix = [vec(ctx, list(pix_from_angles(ctx, I[i], kinds[i], *nats[i]))) for i in range(2)]
    q = [np.array([p]) for p in pix] if form == "batch" else [list(p) for p in pix] if form == "list" else pix
    if what == "triangulate":
        got = G.spaceFromImages(*q)
        ctx.prove("shape", np.shape(got) == ((1, 3) if form == "batch" else (3,)), str(np.shape(got)))
        ctx.eq("midway on the shortest connection of the rays", got[0] if form == "batch" else got, M)
    elif what == "distance":
        L = np.sqrt((uu * vv - uv * uv) / uu / vv)
        ctx.pos(L)
        ctx.pos(dot(n, n))
        ctx.pos(L - 1e-8)
        L = L * np.sqrt(uu) * np.sqrt(vv)
        got = G.discanteBetweenRays(*q)
        got = got[0] if form == "batch" else got
        e = 2 * h * L if hsign >= 0 else -2 * h * L
        ctx.eq("length of the shortest connection of the rays", got, e)
    elif what == "project":
        got = G.imagesFromSpace(M if form != "batch" else np.array([M]))
        ctx.prove("one result per camera", len(got) == 2, str(len(got)))
        for i in range(2):
            ctx.eq("pixel of camera %d" % i, got[i][0] if form == "batch" else got[i], pix[i])


def h_batch(ctx, kinds, what, shape, lens=None):
    """several pixel pairs: each pair on its own"""
    ct = ctx.ct
    A = [angles(ctx, "a", ("tilt", "roll", "heading"), {}), dict(tilt=90., roll=0., heading=ctx.deg("bheading", -360, 360))]
    I = [intr(ctx, "a"), intr(ctx, "b")]
    pos = [vec(ctx, [ctx.real("%s%d" % (n, i), -1000, 1000, prefer=(-30, 30)) for i in range(3)]) for n in "pq"]
    G = group(ctx, kinds, A, I, pos, None)
    Rs = [R_doc(ctx, a["tilt"], a["roll"], a["heading"]) for a in A]
    N = int(np.prod(shape[:-1]))
    pix = [np.empty((N, 2), dtype=dt(ctx)) for _ in range(2)]
    for i in range(N):
        nats = [nat(ctx, k, "%d%d_" % (j, i), "front", 2) for j, k in enumerate(kinds)]
        c = [ray_doc(ctx, k, *u) for k, u in zip(kinds, nats)]
        v = [np.dot(R.T, r) for R, r in zip(Rs, c)]
        uu, vv, uv = dot(c[0], c[0]), dot(c[1], c[1]), dot(v[0], v[1])
        ctx.pos(uu, vv, uu * vv - uv * uv)
        L = np.sqrt((uu * vv - uv * uv) / uu / vv)
        ctx.pos(L, L - 1e-8)
        if what == "distance":
            n = cross(ctx, v[0], v[1])
            (ctx.pos if i == 0 else ctx.neg)(dot(n, pos[1] - pos[0]))
        if not ctx.symbolic:
            ctx.assume(uu * vv - uv * uv > 1e-3 * uu * vv)
        for j in range(2):
            pix[j][i] = pix_from_angles(ctx, I[j], kinds[j], *nats[j])
    f = G.spaceFromImages if what == "triangulate" else G.discanteBetweenRays
    got = f(pix[0].reshape(shape), pix[1].reshape(shape))
    ctx.prove("shape", np.shape(got) == (shape[:-1] + (3,) if what == "triangulate" else shape[:-1]), str(np.shape(got)))
    got = got.reshape(N, -1)
    for i in range(N):
        ctx.eq("each pair on its own", got[i], np.reshape(f(pix[0][i], pix[1][i]), (-1,)))


def h_sizes(ctx, what):
    """pixel arrays of different shape are refused"""
    ct = ctx.ct
    G = ct.CameraGroup(ct.RectilinearProjection(focallength_px=1000, image=(400, 300)), [ct.SpatialOrientation(pos_x_m=ctx.real("x", -10, 10)), ct.SpatialOrientation()])
    a, b = np.array([[ctx.real("a", 0, 100), 2.]]), np.array([[ctx.real("b", 0, 100), 2.], [1., 2.]])
    f = G.spaceFromImages if what == "triangulate" else G.discanteBetweenRays
    ctx.raises("different number of pixels", AssertionError, lambda: f(a, b))


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k))
    F = dict(tilt=90., roll=0., heading=30.)
    pairs = [(a, b) for a in KINDS for b in KINDS]
    for n, (a, b) in enumerate(pairs):
        for what in ("triangulate", "distance", "project"):
            for hs in ((0, 1, -1) if what != "project" else (0,)):
                add("%s-%s-%s-%d" % (what, a, b, hs), h_group, kinds=(a, b), what=what, form=("single", "batch", "list")[(n + hs) % 3], sym2=("heading",), fixed2=F, hsign=hs)
    for n, (a, b) in enumerate(pairs):
        for what in ("triangulate", "distance"):
            if what == "triangulate" or tier == "thorough" or n % 4 == 0:
                add("batch-%s-%s-%s" % (what, a, b), h_batch, kinds=(a, b), what=what, shape=(2, 2))
            add("two-angles-%s-%s-%s" % (what, a, b), h_group, kinds=(a, b), what=what, form="single", sym2=("heading", "tilt") if n % 2 else ("heading", "roll"), fixed2=F, hsign=1 if n % 2 else -1,
                **(dict(sym1=("tilt", "heading", "roll")) if tier == "thorough" else dict(sym1=("tilt", "heading") if n % 2 else ("roll", "tilt"))))
        sects = (("left", "front"), ("front", "right"), ("right", "left"))[n % 3]
        sects = tuple("front" if k == "rect" else s for k, s in zip((a, b), sects))
        if sects != ("front", "front"):
            for what in ("triangulate", "project"):
                add("behind-%s-%s-%s" % (what, a, b), h_group, kinds=(a, b), what=what, form="batch", sym2=("heading",), fixed2=F, sects=sects, hsign=0)
    for k in KINDS:
        for what in ("triangulate", "distance", "project"):
            add("shared-%s-%s" % (what, k), h_group, kinds=(k, k), what=what, form="single", sym2=("heading",), fixed2=F, hsign=1 if what == "distance" else 0, share="projection")
    for what in ("triangulate", "distance"):
        add("sizes-" + what, h_sizes, what=what)
    if tier == "thorough":
        for k in KINDS:
            for what in ("triangulate", "distance", "project"):
                add("all-angles-%s-%s" % (what, k), h_group, kinds=(k, k), what=what, form="single", sym2=("heading", "tilt", "roll"), fixed2=F, hsign=1 if what == "distance" else 0)
    return out
