"""C09: lens distortion formulas and their inverse."""
import numpy as np
from .common import *

META = dict(bounds="Brown |k1|<=0.03 |k2|<=0.003 |k3|<=0.0005, ABC |a|,|b|,|c|<=0.02 (monotone radius function) and single strong coefficients (k1 -0.25..0.5, k2 -0.1, k3 -0.03..0.1, a -0.05, b -0.1, c 0.3), and pairs or triples of strong Brown coefficients, inside the "
                   "monotone range; pixels within 1.8 normalised radii of the "
                   "optical centre in every direction; focal length 0.1..1e5 px (x and y independent), centre +-1e4 px, image size 1..1e5 px; 1 to 3 pixels per call",
            stubs=["scipy interpolating splines: the exact inverse of the polynomial through the nodes, only for at least cubic interpolation with nodes not further apart than 0.03 (real error then below 1e-7 of the normalised radius for the bounds of 'accuracy'); any other interpolant is its own uninterpreted function with the real values"])


def setup(ctx, lens, wide=True):
    I = intr(ctx)
    K = lens_coef(ctx, lens)
    if wide:
        w = ctx.real("w", 1, 100000, prefer=(20, 5000))
        h = w + ctx.real("dh", 0, 1000)
    else:
        h = ctx.real("h", 1, 100000, prefer=(20, 5000))
        w = h + ctx.real("dw", 0, 1000)
    p = projection(ctx, "rect", I, image=(w, h))
    L = make_lens(ctx, lens, K)
    cam = ctx.ct.Camera(p, ctx.ct.SpatialOrientation(), L)
    return cam, L, I, K, (w, h)


def pts(ctx, lens, K, I, size, shape):
    und, dis = np.empty(shape, dtype=dt(ctx)), np.empty(shape, dtype=dt(ctx))
    for n, i in enumerate(np.ndindex(*shape[:-1])):
        und[i], dis[i] = lens_pixel(ctx, lens, K, I, size, n)
    return und, dis


def near(ctx, label, got, exp, lens, I, size, tol=1e-5):
    """equal pixels; the tolerance (for the concrete replay) is in units of the normalised radius"""
    if not ctx.symbolic:
        sc = np.array(lens_scale(ctx, lens, I, size), dtype=float)
        c = np.array([I["center_x_px"], I["center_y_px"]], dtype=float)
        got, exp = (np.asarray(got, dtype=float) - c) / sc, (np.asarray(exp, dtype=float) - c) / sc
    ctx.eq(label, got, exp, tol=tol)


def h_formula(ctx, lens, shape, form, wide):
    cam, L, I, K, size = setup(ctx, lens, wide)
    und, dis = pts(ctx, lens, K, I, size, shape)
    arg = und.tolist() if form == "list" else und.copy()
    got = np.asarray(L.distortedFromImage(arg))
    ctx.eq("documented radial distortion", got, dis)


def h_inverse(ctx, lens, shape, form, wide):
    cam, L, I, K, size = setup(ctx, lens, wide)
    und, dis = pts(ctx, lens, K, I, size, shape)
    arg = dis.tolist() if form == "list" else dis.copy()
    got = np.asarray(L.imageFromDistorted(arg))
    near(ctx, "undistorting is the inverse", got, und, lens, I, size)
    near(ctx, "distorting the undistorted pixel gives the pixel", L.distortedFromImage(got), dis, lens, I, size)


def h_accuracy(ctx, lens, n):
    """the tabulated inverse is accurate to 1e-4 of the normalised radius (a small fraction of a pixel in usual images)"""
    cam, L, I, K, size = setup(ctx, lens, True)
    sx, sy = lens_scale(ctx, lens, I, size)
    und, dis = zip(*[lens_pixel(ctx, lens, K, I, size, i, hi=1.4) for i in range(n)])
    got = np.asarray(L.imageFromDistorted(stack(ctx, dis)))
    for i in range(n):
        for c, sc in ((0, sx), (1, sy)):
            ctx.ge0("accuracy of the inverse (upper)", (und[i][c] - got[i][c]) / sc + 1e-4, tol=0)
            ctx.ge0("accuracy of the inverse (lower)", (got[i][c] - und[i][c]) / sc + 1e-4, tol=0)


def h_centre(ctx, lens):
    cam, L, I, K, size = setup(ctx, lens)
    c = vec(ctx, [I["center_x_px"], I["center_y_px"]])
    ctx.eq("the optical centre is not distorted", L.distortedFromImage(c.copy()), c)
    ctx.eq("the optical centre is not undistorted", L.imageFromDistorted(c.copy()), c)
    und, dis = lens_pixel(ctx, lens, K, I, size, 0)
    ctx.eq("the optical centre among other points", L.distortedFromImage(stack(ctx, [c, und])), stack(ctx, [c, dis]))


def h_zero(ctx, lens):
    I = intr(ctx)
    size = (ctx.real("w", 1, 10000), ctx.real("h", 1, 10000))
    L = make_lens(ctx, lens, {})
    cam = ctx.ct.Camera(projection(ctx, "rect", I, image=size), ctx.ct.SpatialOrientation(), L)
    p = ctx.vec("p", 2, 1, 10000)
    d = [I["center_x_px"] + p[0], I["center_y_px"] - p[1]]
    ctx.eq("a lens without coefficients does not distort", L.distortedFromImage(d), vec(ctx, d))
    # inside the range where the inverse is tabulated
    u, ph = ctx.real("u", 0.01, 1.8), ctx.real("phi", -180, 180)
    sx, sy = lens_scale(ctx, lens, I, size)
    q = vec(ctx, [I["center_x_px"] + sx * u * ctx.cosd(ph), I["center_y_px"] + sy * u * ctx.sind(ph)])
    ctx.eq("a lens without coefficients does not undistort", L.imageFromDistorted(q), q, tol=1e-5)


def h_strong(ctx, lens, name, lo, hi, umax):
    """one strong coefficient: the radius function may turn back outside of the used range"""
    I = intr(ctx)
    K = lens_coef(ctx, lens)
    K = {k: 0 for k in K}
    K[name] = ctx.real("strong", lo, hi)
    size = (400, 300)
    L = make_lens(ctx, lens, {name: K[name]})
    ctx.ct.Camera(projection(ctx, "rect", I, image=size), ctx.ct.SpatialOrientation(), L)
    und, dis = lens_pixel(ctx, lens, K, I, size, 0, hi=umax)
    ctx.eq("documented radial distortion", L.distortedFromImage(und), dis)
    near(ctx, "undistorting is the inverse", L.imageFromDistorted(dis), und, lens, I, size)


def h_turning(ctx, ranges, umax):
    """several strong Brown coefficients: the radius function turns back (and may rise again) outside of the used range"""
    I = intr(ctx)
    K = {k: ctx.real(k, *r) for k, r in ranges.items()}
    size = (400, 300)
    L = make_lens(ctx, "brown", K)
    ctx.ct.Camera(projection(ctx, "rect", I, image=size), ctx.ct.SpatialOrientation(), L)
    K = dict(dict(k1=0, k2=0, k3=0), **K)
    und, dis = lens_pixel(ctx, "brown", K, I, size, 0, hi=umax)
    ctx.eq("documented radial distortion", L.distortedFromImage(und), dis)
    near(ctx, "undistorting is the inverse", L.imageFromDistorted(dis), und, "brown", I, size)


def h_camera(ctx, lens, kind, n):
    """the camera distorts after the projection and undistorts before the ray is calculated"""
    I = intr(ctx)
    K = lens_coef(ctx, lens)
    size = (400, 300)
    P = pose(ctx)
    cam = camera(ctx, kind, I, P, size, lens=make_lens(ctx, lens, K))[0]
    plain = camera(ctx, kind, I, P, size)[0]
    if lens == "abc":
        # keep the panoramic angles bounded
        und = []
        for i in range(n):
            u = lens_pixel(ctx, lens, K, I, size, i)
            und.append(u)
    else:
        und = [lens_pixel(ctx, lens, K, I, size, i, hi=1.4) for i in range(n)]
    U = stack(ctx, [u for u, d in und])
    Dd = stack(ctx, [d for u, d in und])
    o1, r1 = cam.getRay(Dd)
    o2, r2 = plain.getRay(U)
    ctx.eq("ray of the distorted pixel", r1, r2, tol=1e-3)
    ctx.eq("origin", o1, o2)
    if kind == "rect":
        s = ctx.real("s", 0.1, 100)
        sp = o2 + r2 * s
        ctx.eq("the lens is applied after the projection", cam.imageFromSpace(sp), Dd, tol=1e-4)


def instances(tier):
    out = []
    for lens in LENSES:
        for wide in (True, False):
            for shape, form in (((2,), "array"), ((2,), "list"), ((1, 2), "array"), ((2, 2), "array"), ((3, 2), "list")):
                if lens == "none" and form == "list":
                    pass
                nm = "%s-%s-%s-%s" % (lens, "x".join(map(str, shape)), form, "high" if wide else "wide")
                out.append(dict(name="formula-" + nm, fn=h_formula, args=dict(lens=lens, shape=shape, form=form, wide=wide)))
                out.append(dict(name="inverse-" + nm, fn=h_inverse, args=dict(lens=lens, shape=shape, form=form, wide=wide), weight=2))
        if lens != "none":
            for n in (1, 2):
                out.append(dict(name="accuracy-%s-%d" % (lens, n), fn=h_accuracy, args=dict(lens=lens, n=n), nreplay=20))
            out.append(dict(name="centre-%s" % lens, fn=h_centre, args=dict(lens=lens)))
            out.append(dict(name="zero-%s" % lens, fn=h_zero, args=dict(lens=lens)))
            for kind in KINDS:
                if lens == "abc" and kind != "rect":
                    continue
                out.append(dict(name="camera-%s-%s" % (lens, kind), fn=h_camera, args=dict(lens=lens, kind=kind, n=2), weight=3))
    for n, (ranges, umax) in enumerate(((dict(k1=(-0.48, -0.42), k2=(0.03, 0.05)), 0.6), (dict(k1=(-0.3, -0.28), k3=(0.008, 0.01)), 0.8),
                                        (dict(k1=(-0.25, -0.2), k2=(0.12, 0.13), k3=(-0.05, -0.045)), 0.7))):
        out.append(dict(name="turning-%d" % n, fn=h_turning, args=dict(ranges=ranges, umax=umax), weight=3, opts=dict(max_paths=20000)))
    for lens, name, lo, hi, umax in (("brown", "k1", -0.25, -0.1, 0.8), ("brown", "k1", 0.1, 0.5, 1.5), ("brown", "k2", -0.1, -0.02, 0.8), ("brown", "k3", -0.03, -0.01, 0.8),
                                     ("brown", "k3", 0.01, 0.1, 1.2), ("abc", "b", -0.1, -0.03, 1.2), ("abc", "a", -0.05, -0.02, 1.0), ("abc", "c", 0.05, 0.3, 1.2)):
        out.append(dict(name="strong-%s-%s%s" % (lens, name, "+" if lo > 0 else "-"), fn=h_strong, args=dict(lens=lens, name=name, lo=lo, hi=hi, umax=umax), weight=3))
    return out
