"""C14: intersection of rays with triangle meshes."""
import numpy as np
from .common import *

META = dict(bounds="triangle corners, ray origins and hit points in +-100 m, ray directions scaled by 0.01..100; triangles of any orientation that are not degenerate, "
                   "rays not parallel to the triangle (and rays exactly parallel to it, off its plane); hit points not exactly on the border; "
                   "1 ray x 1..3 triangles, 2 rays x 1..2 triangles, 3 rays x 1 triangle; axis-parallel triangles for several rays x several triangles",
            assumptions=["rays lying inside the plane of the triangle are left out"])

REGION = dict(inside=(1, 1, 1), s_neg=(-1, 1, 1), t_neg=(1, -1, 1), both_neg=(-1, -1, 1), beyond=(1, 1, -1), s_neg_beyond=(-1, 1, -1), t_neg_beyond=(1, -1, -1))


def v3(ctx, name, lo=-100, hi=100):
    return vec(ctx, [ctx.real("%s%d" % (name, i), lo, hi, prefer=(lo / 10, hi / 10)) for i in range(3)])


def bary(ctx, region, i=""):
    """barycentric coordinates (s, t) in a region relative to the triangle"""
    ss, st, s3 = REGION[region]
    if ss > 0 and st > 0 and s3 > 0:
        s = ctx.real("s%s" % i, 0.001, 0.998)
        t = ctx.real("t%s" % i, 0.001, 0.998)
    else:
        s = ctx.real("s%s" % i, 0.001, 20, prefer=(0.05, 2)) if ss > 0 else ctx.real("s%s" % i, -20, -0.001, prefer=(-2, -0.05))
        t = ctx.real("t%s" % i, 0.001, 20, prefer=(0.05, 2)) if st > 0 else ctx.real("t%s" % i, -20, -0.001, prefer=(-2, -0.05))
    (ctx.pos if s3 > 0 else ctx.neg)(1 - s - t)
    return s, t


def triangle(ctx, i, H, s, t):
    """a triangle for which the point H has the coordinates (s, t)"""
    u, v = v3(ctx, "u%s_" % i), v3(ctx, "v%s_" % i)
    n = cross(ctx, u, v)
    v0 = H - s * u - t * v
    nn = dot(n, n)
    uv = dot(u, v)
    ctx.pos(nn, dot(u, u) * dot(v, v) - uv * uv)
    if not ctx.symbolic:
        ctx.assume(nn > 0.01 * dot(u, u) * dot(v, v) and dot(u, u) > 0.01 and dot(v, v) > 0.01)
    return np.array([v0, v0 + u, v0 + v]), n


def facing(ctx, n, d, sign):
    x = dot(n, d)
    (ctx.pos if sign > 0 else ctx.neg)(x)
    if not ctx.symbolic:
        ctx.assume(abs(x) > 0.02 * np.sqrt(dot(n, n) * dot(d, d)))


def expect(ctx, label, got, exp):
    if exp is None:
        ctx.is_nan(label + " (no intersection is nan)", got)
    else:
        ctx.eq(label, got, exp)


def h_single(ctx, region, front, face, form):
    """one ray, one triangle"""
    O, d = v3(ctx, "o"), v3(ctx, "d", -1, 1)
    k = ctx.real("k", 0.01, 100, prefer=(0.5, 20)) if front else ctx.real("k", -100, -0.01, prefer=(-20, -0.5))
    s, t = bary(ctx, region)
    tri, n = triangle(ctx, "", O + k * d, s, t)
    facing(ctx, n, d, face)
    f = ctx.ct.ray.ray_intersect_triangle
    hit = O + k * d if front else None
    if form == "single":
        got = f(O, d, tri)
        ctx.prove("shape", np.shape(got) == (3,), str(np.shape(got)))
        expect(ctx, "intersection", got, hit if region == "inside" else None)
    elif form == "planes":
        got = f(O, d, tri, use_planes=True)
        expect(ctx, "intersection with the plane", got, hit)
    elif form == "lists":
        got = f(list(O), [list(d)], [[list(r) for r in tri]])
        ctx.prove("shape", np.shape(got) == (1, 3), str(np.shape(got)))
        expect(ctx, "intersection", got[0], hit if region == "inside" else None)
    elif form == "corner-order":
        for order in ((1, 0, 2), (2, 1, 0), (1, 2, 0)):
            got = f(O, d, tri[list(order)])
            expect(ctx, "the order of the corners does not matter", got, hit if region == "inside" else None)


def h_parallel(ctx, region):
    """a ray parallel to the plane of the triangle, but not in it, has no intersection"""
    s, t = bary(ctx, region)
    u, v = v3(ctx, "u"), v3(ctx, "v")
    n = cross(ctx, u, v)
    ctx.pos(dot(n, n))
    h = ctx.real("h", 0.01, 10)
    v0 = v3(ctx, "v0")
    O = v0 + s * u + t * v + h * n
    d = ctx.real("du", 0.1, 1) * u + ctx.real("dv", 0.1, 1) * v
    # exactly parallel also in floating point: axis-parallel plane
    if not ctx.symbolic:
        u, v, n = np.array([u[0], u[1], 0]), np.array([v[0], v[1], 0]), np.array([0, 0, 1.])
        ctx.assume(abs(u[0] * v[1] - u[1] * v[0]) > 0.01)
        v0 = np.array([v0[0], v0[1], 0])
        O = v0 + s * u + t * v + h * n
        d = u + v
    got = ctx.ct.ray.ray_intersect_triangle(O, d, np.array([v0, v0 + u, v0 + v]))
    ctx.is_nan("a parallel ray has no intersection", got)


def h_nearest(ctx, regions, ks, face):
    """one ray, several triangles: the nearest hit in front counts"""
    O, d = v3(ctx, "o"), v3(ctx, "d", -1, 1)
    # distances along the ray, ordered by the rank given in ks (0: behind the ray)
    step = [ctx.real("k%d" % i, 0.01, 100, prefer=(0.5, 20)) if r else ctx.real("k%d" % i, -100, -0.01, prefer=(-20, -0.5)) for i, r in enumerate(ks)]
    for i, r in enumerate(ks):
        for j, q in enumerate(ks):
            if r and q > r:
                ctx.pos(step[j] - step[i])
    tris = []
    best = None
    for i, (region, r) in enumerate(zip(regions, ks)):
        s, t = bary(ctx, region, i)
        tri, n = triangle(ctx, i, O + step[i] * d, s, t)
        facing(ctx, n, d, face if i % 2 else -face)
        tris.append(tri)
        if region == "inside" and r > 0 and (best is None or r < ks[best]):
            best = i
    got = ctx.ct.ray.ray_intersect_triangle(O, d, np.array(tris))
    ctx.prove("shape", np.shape(got) == (3,), str(np.shape(got)))
    expect(ctx, "nearest intersection", got, None if best is None else O + step[best] * d)


def h_rays(ctx, regions, fronts, same_origin):
    """several rays, one triangle"""
    v0, u, v = v3(ctx, "c"), v3(ctx, "u"), v3(ctx, "v")
    n = cross(ctx, u, v)
    uv = dot(u, v)
    ctx.pos(dot(n, n), dot(u, u) * dot(v, v) - uv * uv)
    if not ctx.symbolic:
        ctx.assume(dot(n, n) > 0.01 * dot(u, u) * dot(v, v) and dot(u, u) > 0.01 and dot(v, v) > 0.01)
    O0 = v3(ctx, "o")
    Os, ds, exp = [], [], []
    for i, (region, fr) in enumerate(zip(regions, fronts)):
        s, t = bary(ctx, region, i)
        O = O0 if same_origin else v3(ctx, "o%d_" % i)
        q = ctx.real("q%d" % i, 0.01, 100, prefer=(0.2, 5)) if fr else ctx.real("q%d" % i, -100, -0.01, prefer=(-5, -0.2))
        H = v0 + s * u + t * v
        facing(ctx, n, v0 - O, 1 if i % 2 == 0 or same_origin else -1)
        Os.append(O)
        ds.append((H - O) * q)
        exp.append(H if fr and region == "inside" else None)
    got = ctx.ct.ray.ray_intersect_triangle(O0 if same_origin else stack(ctx, Os), stack(ctx, ds), np.array([v0, v0 + u, v0 + v]))
    ctx.prove("shape", np.shape(got) == (len(ds), 3), str(np.shape(got)))
    for i, e in enumerate(exp):
        expect(ctx, "intersection of ray %d" % i, got[i], e)


def h_grid(ctx, nr, nt, order):
    """several rays x several (axis-parallel) triangles: every combination of hit and miss"""
    O = v3(ctx, "o", -10, 10)
    depth, tris, par = 0, [], []
    for j in range(nt):
        depth = depth + ctx.real("h%d" % j, 0.1, 10)
        x, y = ctx.real("x%d" % j, -5, 5), ctx.real("y%d" % j, -5, 5)
        z = -depth
        tris.append([O + vec(ctx, [x, y, z]), O + vec(ctx, [x + 4, y, z]), O + vec(ctx, [x, y + 3, z])])
        par.append((x, y, depth))
    rays = []
    for i in range(nr):
        q = ctx.real("q%d" % i, 0.1, 10)
        rays.append((ctx.real("a%d" % i, -1, 1), ctx.real("b%d" % i, -1, 1), q))
    d = stack(ctx, [vec(ctx, [a * q, b * q, -q]) for a, b, q in rays])
    mesh = np.array([tris[j] for j in order])
    got = ctx.ct.ray.ray_intersect_triangle(O, d, mesh)
    ctx.prove("shape", np.shape(got) == (nr, 3), str(np.shape(got)))
    for i, (a, b, q) in enumerate(rays):
        exp = None
        for j in range(nt):
            x, y, dep = par[j]
            s, t = (a * dep - x) / 4, (b * dep - y) / 3
            if not ctx.symbolic:
                ctx.assume(min(abs(s), abs(t), abs(1 - s - t)) > 1e-6)
            else:
                ctx.nonzero(s, t, 1 - s - t)
            if s > 0 and t > 0 and s + t < 1:
                exp = O + vec(ctx, [a * dep, b * dep, -dep])
                break
        expect(ctx, "nearest intersection of ray %d" % i, got[i], exp)


def h_camera(ctx, kind, region, front, sect, shape):
    cam, I, P = camera(ctx, kind)
    pix, nats = pixels(ctx, kind, I, shape, (sect,), slope=2)
    t0 = tvec(ctx, P)
    R = R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"])
    d = np.dot(R.T, ray_doc(ctx, kind, *nats[0]))
    k = ctx.real("k", 0.01, 100, prefer=(0.5, 20)) if front else ctx.real("k", -100, -0.01, prefer=(-20, -0.5))
    s, t = bary(ctx, region)
    # triangle given by edges in camera orientation (any triangle is of this form)
    e = [np.dot(R.T, v3(ctx, "e%d" % i, -10, 10)) for i in range(2)]
    H = t0 + k * d
    v0 = H - s * e[0] - t * e[1]
    n = cross(ctx, v3(ctx, "e0", -10, 10), v3(ctx, "e1", -10, 10))
    ctx.pos(dot(n, n))
    facing(ctx, n, ray_doc(ctx, kind, *nats[0]), 1)
    if not ctx.symbolic:
        ctx.assume(dot(n, n) > 0.01 * dot(e[0], e[0]) * dot(e[1], e[1]) and dot(n, n) > 1e-4)
    got = cam.spaceFromImage(pix, mesh=np.array([v0, v0 + e[0], v0 + e[1]]))
    ctx.prove("shape", np.shape(got) == shape[:-1] + (3,), str(np.shape(got)))
    expect(ctx, "the pixel is projected onto the mesh", got.reshape(-1, 3)[0], H if front and region == "inside" else None)


def h_wall(ctx, upper, side, form, down=False):
    """a ray through any point of an extruded wall hits it there"""
    x, y, dx, dy = [ctx.real(n, -100, 100, prefer=(-10, 10)) for n in ("x", "y", "dx", "dy")]
    ctx.pos(dx * dx + dy * dy)
    z0, hz = ctx.real("z0", -100, 100), ctx.real("hz", 0.1, 100) * (-1 if down else 1)
    a, b = ctx.real("a", 0.001, 0.999), ctx.real("b", 0.001, 0.999)
    (ctx.pos if upper else ctx.neg)(a + b - 1)
    if not ctx.symbolic:
        ctx.assume(dx * dx + dy * dy > 1e-2 and abs(a + b - 1) > 1e-5 and abs(a - b) > 1e-5)
    else:
        ctx.nonzero(a - b)
    H = vec(ctx, [x + a * dx, y + a * dy, z0 + b * hz])
    # ray start: a point in front or behind the wall
    c, e, g = ctx.real("c", -10, 10), ctx.real("e", -100, 100), ctx.real("g", 0.01, 10) * side
    O = H + vec(ctx, [c * dx + g * dy, c * dy - g * dx, e])
    q = ctx.real("q", 0.01, 100, prefer=(0.2, 5))
    line = [[x, y], [x + dx, y + dy]]
    mesh = ctx.ct.ray.extrudeLine(stack(ctx, [vec(ctx, r) for r in line]) if form == "array" else line, z0, z0 + hz)
    ctx.prove("two triangles per segment", np.shape(mesh) == (2, 3, 3), str(np.shape(mesh)))
    got = ctx.ct.ray.ray_intersect_triangle(O, (H - O) * q, mesh)
    ctx.eq("the wall is hit", got, H)


def h_wall_miss(ctx, where, side, down=False):
    x, y, dx, dy = [ctx.real(n, -100, 100, prefer=(-10, 10)) for n in ("x", "y", "dx", "dy")]
    ctx.pos(dx * dx + dy * dy)
    z0, hz = ctx.real("z0", -100, 100), ctx.real("hz", 0.1, 100) * (-1 if down else 1)
    a = ctx.real("a", -10, -0.001) if where == "before" else ctx.real("a", 1.001, 10) if where == "after" else ctx.real("a", 0.001, 0.999)
    b = ctx.real("b", -10, -0.001) if where == "below" else ctx.real("b", 1.001, 10) if where == "above" else ctx.real("b", 0.001, 0.999)
    if not ctx.symbolic:
        ctx.assume(dx * dx + dy * dy > 1e-2)
    H = vec(ctx, [x + a * dx, y + a * dy, z0 + b * hz])
    c, e, g = ctx.real("c", -10, 10), ctx.real("e", -100, 100), ctx.real("g", 0.01, 10) * side
    O = H + vec(ctx, [c * dx + g * dy, c * dy - g * dx, e])
    mesh = ctx.ct.ray.extrudeLine([[x, y], [x + dx, y + dy]], z0, z0 + hz)
    ctx.is_nan("a ray beside the wall does not hit it", ctx.ct.ray.ray_intersect_triangle(O, H - O, mesh))


def h_polyline(ctx):
    pts = [vec(ctx, [ctx.real("p%d%d" % (i, m), -100, 100) for m in range(2)]) for i in range(4)]
    z0, z1 = ctx.real("z0", -100, 100), ctx.real("z1", -100, 100)
    f = ctx.ct.ray.extrudeLine
    mesh = f(stack(ctx, pts), z0, z1)
    ctx.prove("two triangles per segment", np.shape(mesh) == (6, 3, 3), str(np.shape(mesh)))
    ctx.eq("the walls of the segments in order", mesh, np.concatenate([f(stack(ctx, pts[i:i + 2]), z0, z1) for i in range(3)]))


def h_area(ctx, what, order=(0, 1, 2)):
    f = ctx.ct.ray
    if what.startswith("triangle"):
        # every triangle is similar to one with the heights and sides below (m, n: tangents of half of two of its angles)
        m, n, k = ctx.real("m", 0.02, 10, prefer=(0.1, 2)), ctx.real("n", 0.02, 10, prefer=(0.1, 2)), ctx.real("k", 0.01, 100, prefer=(0.5, 10))
        ctx.pos(1 - m * n)
        if what == "triangle-2d":
            A = ctx.deg("alpha")
            o, e1, e2 = v3(ctx, "o")[:2], vec(ctx, [ctx.cosd(A), ctx.sind(A)]), vec(ctx, [-ctx.sind(A), ctx.cosd(A)])
        else:
            Rm = R_doc(ctx, ctx.deg("b"), ctx.deg("a"), ctx.deg("c"))
            o, e1, e2 = v3(ctx, "o"), Rm[0], Rm[1]
        p, q, h = k * n * (1 - m * m), k * m * (1 - n * n), k * 2 * m * n
        corners = [o, o + (p + q) * e1, o + p * e1 + h * e2]
        a, b, c = [corners[i] for i in order]
        got = f.areaOfTriangle(np.array([a, b, c]))
        ctx.eq("area of a triangle", got, (p + q) * h / 2)
    else:
        n = 2 if what == "quads" else 1
        R4, exp = [], []
        for j in range(n):
            p = [vec(ctx, [ctx.real("p%d%d%d" % (j, i, m), -100, 100) for m in range(2)]) for i in range(4)]
            A2 = 0
            for i in range(4):
                q, r = p[i], p[(i + 1) % 4]
                A2 = A2 + q[0] * r[1] - r[0] * q[1]
            (ctx.pos if j == 0 else ctx.neg)(A2)
            R4.append(p)
            exp.append(A2 / 2 if j == 0 else -A2 / 2)
        got = f.areaOfQuadrilateral(R4[0] if n == 1 else R4)
        ctx.eq("area of a quadrilateral", got, exp[0] if n == 1 else vec(ctx, exp))


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k))
    for face in (1, -1):
        for r in REGION:
            add("single-%s-%d" % (r, face), h_single, region=r, front=True, face=face, form="single")
        for r in ("inside", "beyond"):
            add("single-behind-%s-%d" % (r, face), h_single, region=r, front=False, face=face, form="single")
    for r in ("inside", "s_neg", "beyond"):
        add("planes-" + r, h_single, region=r, front=True, face=1, form="planes")
        add("lists-" + r, h_single, region=r, front=True, face=-1, form="lists")
        add("corners-" + r, h_single, region=r, front=True, face=1, form="corner-order")
    add("planes-behind", h_single, region="inside", front=False, face=1, form="planes")
    for r in ("inside", "beyond"):
        add("parallel-" + r, h_parallel, region=r)
    i, o = "inside", "beyond"
    for n, (regs, ks) in enumerate((((i, i), (1, 2)), ((i, i), (2, 1)), ((o, i), (1, 2)), ((i, o), (2, 1)), ((o, "s_neg"), (1, 2)), ((i, i), (0, 1)), ((i, i), (1, 0)),
                                    ((i, i), (0, 0)), ((i, i, i), (3, 1, 2)), ((i, o, i), (2, 1, 3)), ((o, i, i), (1, 0, 2)))):
        add("nearest-%s-%s" % ("".join("h" if r == i else "m" for r in regs), "".join(map(str, ks))), h_nearest, regions=regs, ks=ks, face=1 if n % 2 else -1)
    for n, (regs, fr) in enumerate((((i, i), (1, 1)), ((i, o), (1, 1)), ((o, i), (1, 1)), ((i, i), (0, 1)), (("t_neg", "s_neg"), (1, 1)), ((i, o, i), (1, 1, 1)), ((o, i, i), (1, 1, 0)))):
        for so in (True, False):
            add("rays-%s-%s" % ("".join(("h" if f else "b") if r == i else "m" for r, f in zip(regs, fr)), "one-origin" if so else "origins"), h_rays, regions=regs, fronts=fr, same_origin=so)
    for nr, nt, order in ((2, 1, (0,)), (1, 2, (1, 0))) + (((2, 2, (0, 1)), (2, 2, (1, 0)), (1, 3, (2, 0, 1)), (3, 2, (1, 0))) if tier == "thorough" else ()):
        add("grid-%dx%d-%s" % (nr, nt, "".join(map(str, order))), h_grid, nr=nr, nt=nt, order=order)
    for kind in KINDS:
        for r, fr, sect, shape in ((i, True, "front", (2,)), (o, True, "left", (2,)), ("s_neg", True, "right", (1, 2)), (i, False, "front", (2,)), (i, True, "left", (1, 2))):
            add("camera-%s-%s%s-%s-%d" % (kind, r, "" if fr else "-behind", sect, len(shape)), h_camera, kind=kind, region=r, front=fr, sect=sect, shape=shape)
    for side in (1, -1):
        for up in (0, 1):
            add("wall-%d-%d" % (up, side), h_wall, upper=up, side=side, form="array" if side > 0 else "list")
            add("wall-down-%d-%d" % (up, side), h_wall, upper=up, side=side, form="list" if side > 0 else "array", down=True)
        for w in ("before", "after", "below", "above"):
            add("wall-%s-%d" % (w, side), h_wall_miss, where=w, side=side)
            add("wall-down-%s-%d" % (w, side), h_wall_miss, where=w, side=side, down=True)
    add("wall-polyline", h_polyline)
    for order in ((0, 1, 2), (1, 0, 2), (2, 0, 1)):
        add("area-triangle-%d%d%d" % order, h_area, what="triangle", order=order)
        add("area-triangle-2d-%d%d%d" % order, h_area, what="triangle-2d", order=order)
    for w in ("quad", "quads"):
        add("area-" + w, h_area, what=w)
    return out
