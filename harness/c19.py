"""C19: a batch gives exactly the results of its single points."""
import numpy as np
from .common import *
from . import ops

META = dict(bounds="free points, pixels, poses, intrinsics and lens coefficients; (N, .) batches of 1 and 2 points for every transformation (3 points for the simple ones) and (2,1,.), (1,1,2,.), (2,2,.) stacks for those without a batch parameter; "
                   "points of every visibility in the same batch (no assumption on them)",
            assumptions=["the points themselves are unrestricted; each path (visible, hidden, without a result, degenerate) is one case of the comparison"])


def same(ctx, label, a, b):
    """elementwise equal, nan at the same places"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return ctx.prove(label + ": shape", False, "%s %s" % (a.shape, b.shape))
    for i in np.ndindex(*a.shape):
        x, y = a[i], b[i]
        nx, ny = bool(np.isnan(x)), bool(np.isnan(y))
        if nx or ny:
            ctx.prove(label, nx and ny, "%s: %s, single %s" % (i, "nan" if nx else "a number", "nan" if ny else "a number"))
        else:
            ctx.eq(label, x, y)


def h_batch(ctx, name, shape, kind="rect", lens="none", simple=False, generic=False):
    r = ops.make(ctx, name, kind, lens, simple, generic)
    extra = ()
    if isinstance(r, tuple):
        r, extra = r[0], r[1:]
    n = int(np.prod(shape))
    args = [r.gens(i) for i in range(n)]
    got = np.asarray(r.call(*ops.stacked(ctx, args, shape), *extra))
    singles = [np.asarray(r.call(*[np.array(a) if np.shape(a) else a for a in xs], *extra)) for xs in args]
    ctx.prove("the result has the leading shape of the points", got.shape == tuple(shape) + singles[0].shape, "%s for points %s, single %s" % (got.shape, shape, singles[0].shape))
    if got.shape[:len(shape)] == tuple(shape):
        for j, i in enumerate(np.ndindex(*shape)):
            same(ctx, "point of a batch", got[i], singles[j])


SIMPLE = [("orientation.cameraFromSpace", {}), ("orientation.spaceFromCamera", {}), ("orientation.spaceFromCamera-direction", {}),
          ("orientation2.cameraFromSpace", {}), ("orientation2.spaceFromCamera", {})]


def table(tier):
    t = list(SIMPLE)
    for k in KINDS:
        t += [("projection." + w, dict(kind=k)) for w in ("getRay", "getRay-normed", "imageFromCamera", "imageFromCamera-all")]
        t += [("camera." + w, dict(kind=k)) for w in ("getRay", "getRay-normed", "imageFromSpace", "imageFromSpace-all")]
        t += [("camera.spaceFromImage-%s-%s" % (c, h), dict(kind=k)) for c in "XYZD" for h in ("fixed", "each")]
        t += [("camera." + w, dict(kind=k)) for w in ("getObjectLength", "getObjectLength-Z")]
        t += [("pair." + w, dict(kind=k)) for w in ("spaceFromImages", "discanteBetweenRays", "imagesFromSpace")]
        t += [("camera.mesh", dict(kind=k))]
    t += [("camera." + w, dict(kind=k)) for w in ("getObjectHeight", "getObjectHeight-Z") for k in KINDS]
    for L in LENSES:
        t += [("lens." + w, dict(lens=L)) for w in ("distortedFromImage", "imageFromDistorted")]
        if L != "none":
            t += [("camera." + w, dict(lens=L)) for w in ("getRay", "imageFromSpace", "spaceFromImage-Z-fixed")]
    t += [("camera." + w, {}) for w in ("gpsFromSpace", "spaceFromGPS")]
    t += [("gps." + w + h, {}) for w in ("getDistance", "getBearing", "moveDistance", "spaceFromGPS", "gpsFromSpace") for h in ("", "-height")]
    t += [("ray." + w, {}) for w in ("intersectionOfTwoLines", "distanceOfTwoLines", "getClosestPointFromLine", "areaOfQuadrilateral", "mesh", "mesh-planes", "mesh-origins")]
    return t


SHAPES = dict(projection=((2,), (1,), (2, 1)), orientation=((2,), (3,), (2, 2), (1, 2, 2)), orientation2=((2,), (2, 1)), lens=((2,), (1,), (2, 1)))
SHAPES2 = {"camera.imageFromSpace": ((2,), (1,), (2, 1)), "camera.imageFromSpace-all": ((2,), (2, 1)), "camera.getRay": ((2,), (1,), (2, 1)), "camera.getRay-normed": ((2,), (2, 1)),
           "gps.getDistance": ((2,), (1,), (2, 1)), "gps.getBearing": ((2,), (1,), (2, 1)), "ray.areaOfQuadrilateral": ((2,), (1,), (2, 2))}


# batches of several points: the degenerate cases (a ray parallel to the plane etc.) are left to the batch of one
GENERIC = {"camera.getObjectHeight": (0, 1, 2), "camera.getObjectHeight-Z": (0, 1, 2), "camera.getObjectLength": (2,), "camera.getObjectLength-Z": (2,), "pair.imagesFromSpace": (2,)}


def instances(tier):
    out = []
    for name, a in table(tier):
        for sh in SHAPES2.get(name, SHAPES.get(name.partition(".")[0], ((2,), (1,)))):
            k = dict(a)
            n = int(np.prod(sh))
            if n > 1 and name in GENERIC:
                k["generic"] = GENERIC[name]
            if name == "camera.mesh":
                k["simple"] = True
            out.append(dict(name="-".join([name] + [str(v) for v in a.values()] + ["x".join(map(str, sh))]), fn=h_batch, opts={} if "gps" in name.lower() else dict(feas_ms=0, max_paths=12000), args=dict(name=name, shape=sh, **k)))
    return out
