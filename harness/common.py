"""Shared builders and *independent* specification formulas (taken from the documentation)."""
import numpy as np

KINDS = ("rect", "cyl", "equi")
CLS = dict(rect="RectilinearProjection", cyl="CylindricalProjection", equi="EquirectangularProjection")


def dt(ctx):
    return object if ctx.symbolic else float


def vec(ctx, items):
    a = np.empty(len(items), dtype=dt(ctx))
    for i, x in enumerate(items):
        a[i] = x
    return a


def mat(ctx, rows):
    a = np.empty((len(rows), len(rows[0])), dtype=dt(ctx))
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


def R_doc(ctx, tilt, roll, heading):
    s, c = ctx.sind, ctx.cosd
    Rr = mat(ctx, [[c(roll), s(roll), 0], [-s(roll), c(roll), 0], [0, 0, 1]])
    Rt = mat(ctx, [[1, 0, 0], [0, c(tilt), s(tilt)], [0, -s(tilt), c(tilt)]])
    Rh = mat(ctx, [[c(heading), -s(heading), 0], [s(heading), c(heading), 0], [0, 0, 1]])
    return np.dot(np.dot(Rr, Rt), Rh)


def pose(ctx, pre="", wide=False, fixed=()):
    """symbolic pose; ``fixed`` angles are concrete"""
    P = dict(elevation_m=ctx.real(pre + "ele", -100, 10000, prefer=(1, 60)),
             pos_x_m=ctx.real(pre + "px", -1000, 1000, prefer=(-30, 30)),
             pos_y_m=ctx.real(pre + "py", -1000, 1000, prefer=(-30, 30)))
    for n in ("tilt", "roll", "heading"):
        if n in fixed:
            P[n + "_deg"] = fixed[n]
        else:
            P[n + "_deg"] = ctx.deg(pre + n, -1000 if wide and n == "heading" else -360, 1000 if wide and n == "heading" else 360)
    return P


def tvec(ctx, P):
    return vec(ctx, [P["pos_x_m"], P["pos_y_m"], P["elevation_m"]])


def intr(ctx, pre=""):
    return dict(focallength_x_px=ctx.real(pre + "fx", 0.1, 100000, prefer=(50, 3000)),
                focallength_y_px=ctx.real(pre + "fy", 0.1, 100000, prefer=(50, 3000)),
                center_x_px=ctx.real(pre + "cx", -10000, 10000, prefer=(10, 500)),
                center_y_px=ctx.real(pre + "cy", -10000, 10000, prefer=(10, 500)))


def projection(ctx, kind, I, image=(400, 300), **k):
    d = dict(I)
    d.update(k)
    return getattr(ctx.ct, CLS[kind])(image=image, **d)


def pix_from_angles(ctx, I, kind, ua, ub):
    """pixel whose ray has the 'natural' coordinates ua, ub (slope or angle in rad): every pixel is of this form"""
    return I["center_x_px"] + I["focallength_x_px"] * ua, I["center_y_px"] + I["focallength_y_px"] * ub


SECT = dict(front=(-1.57, 1.57), left=(-3.14, -1.571), right=(1.571, 3.14))


def nat(ctx, kind, i="", sect="front", slope=100):
    """natural pixel coordinates inside the domain where the pixel<->ray map is one to one; panoramic pixels are
    split in sectors (front / left-back / right-back), leaving out 0.02 deg around the exact side directions (see C04)"""
    if kind == "rect":
        return ctx.real("ua%s" % i, -slope, slope, prefer=(-1, 1)), ctx.real("ub%s" % i, -slope, slope, prefer=(-1, 1))
    lo, hi = SECT[sect]
    ua = ctx.real("ua%s" % i, lo, hi, prefer=(max(lo, -2.9), min(hi, 2.9)))
    if kind == "cyl":
        return ua, ctx.real("ub%s" % i, -slope, slope, prefer=(-1, 1))
    return ua, ctx.real("ub%s" % i, -1.57, 1.57, prefer=(-1.4, 1.4))


def pixels(ctx, kind, I, shape, sects=("front", "left", "right"), slope=100):
    pix = np.empty(shape, dtype=dt(ctx))
    nats = []
    for n, i in enumerate(np.ndindex(*shape[:-1])):
        u = nat(ctx, kind, n, sects[n % len(sects)], slope)
        pix[i] = pix_from_angles(ctx, I, kind, *u)
        nats.append(u)
    return pix, nats


def ray_doc(ctx, kind, ua, ub):
    """documented ray (camera looks along -z: the code returns its negative)"""
    if kind == "rect":
        return vec(ctx, [ua, -ub, -1])
    if kind == "cyl":
        return vec(ctx, [np.sin(ua), -ub, -np.cos(ua)])
    return vec(ctx, [np.sin(ua), -np.tan(ub), -np.cos(ua)])


def proj_doc(ctx, kind, I, p):
    """documented projection of a camera point"""
    x, y, z = p
    fx, fy, cx, cy = I["focallength_x_px"], I["focallength_y_px"], I["center_x_px"], I["center_y_px"]
    if kind == "rect":
        return vec(ctx, [fx * (-x) / z + cx, fy * y / z + cy])
    h = np.sqrt(x * x + z * z)
    if kind == "cyl":
        return vec(ctx, [-fx * np.arctan2(-x, -z) + cx, -fy * y / h + cy])
    return vec(ctx, [-fx * np.arctan2(-x, -z) + cx, -fy * np.arctan2(y, h) + cy])


def norm(ctx, v):
    s = 0
    for x in v:
        s = s + x * x
    return np.sqrt(s)


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def cross(ctx, a, b):
    return vec(ctx, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def stack(ctx, rows):
    """rows: list of 1-D arrays -> 2-D array"""
    a = np.empty((len(rows),) + np.shape(rows[0]), dtype=dt(ctx))
    for i, r in enumerate(rows):
        a[i] = r
    return a


def camera(ctx, kind="rect", I=None, P=None, image=(400, 300), lens=None, orientation=None):
    I = intr(ctx) if I is None else I
    P = pose(ctx) if P is None else P
    o = orientation if orientation is not None else ctx.ct.SpatialOrientation(**P)
    args = [projection(ctx, kind, I, image), o]
    if lens is not None:
        args.append(lens)
    return ctx.ct.Camera(*args), I, P


# ------------------------------------------------------------------ lenses
LENSES = ("none", "brown", "abc")


def lens_coef(ctx, lens, pre=""):
    """coefficients for which the distortion is monotone (invertible) inside 1.9 normalised radii"""
    r = ctx.real
    if lens == "brown":
        return dict(k1=r(pre + "k1", -0.03, 0.03), k2=r(pre + "k2", -0.003, 0.003), k3=r(pre + "k3", -0.0005, 0.0005))
    if lens == "abc":
        return dict(a=r(pre + "a", -0.02, 0.02), b=r(pre + "b", -0.02, 0.02), c=r(pre + "c", -0.02, 0.02))
    return {}


def make_lens(ctx, lens, K):
    ct = ctx.ct
    return dict(none=ct.NoDistortion, brown=ct.BrownLensDistortion, abc=ct.ABCDistortion)[lens](**K)


def radius_doc(lens, K, r):
    """documented radius after the distortion"""
    if lens == "brown":
        return r * (1 + K["k1"] * r ** 2 + K["k2"] * r ** 4 + K["k3"] * r ** 6)
    if lens == "abc":
        a, b, c = K["a"], K["b"], K["c"]
        return (1 - a - b - c) * r + c * r ** 2 + b * r ** 3 + a * r ** 4
    return r


def lens_scale(ctx, lens, I, size):
    if lens == "abc":
        s = (size[0] if size[0] <= size[1] else size[1]) / 2
        return s, s
    return I["focallength_x_px"], I["focallength_y_px"]


def lens_pixel(ctx, lens, K, I, size, i, lo=0.01, hi=1.8):
    """a pixel in polar coordinates around the optical centre: (undistorted, distorted)"""
    u = ctx.real("lu%s" % i, lo, hi, prefer=(0.05, min(hi, 1.5) - 0.02))
    ph = ctx.real("lphi%s" % i, -180, 180)
    ctx.hint(u)
    sx, sy = lens_scale(ctx, lens, I, size)
    s, c = ctx.sind(ph), ctx.cosd(ph)
    v = radius_doc(lens, K, u)
    und = vec(ctx, [I["center_x_px"] + sx * u * c, I["center_y_px"] + sy * u * s])
    dis = vec(ctx, [I["center_x_px"] + sx * v * c, I["center_y_px"] + sy * v * s])
    return und, dis
