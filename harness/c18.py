"""C18: transformations do not modify their arguments or the camera, and repeat exactly."""
import copy
import numpy as np
from .common import *
from . import ops
from .c19 import same, table

META = dict(bounds="every transformation of the table of C19 (free points, poses, intrinsics, coefficients), for a single point, a batch of one and (for those with few cases) a batch of two, given as arrays and as nested lists; "
                   "lists only where the package converts them (not: local <-> GPS conversion, two-line functions); integer pixels, points and GPS positions from a small concrete set with a free camera",
            assumptions=["the returned arrays belong to the caller: overwriting them changes nothing (not checked for the two methods of NoDistortion, which hand their argument through)"])


def state(obj):
    """all parameter values behind an object"""
    out = {}
    for nm in ("projection", "orientation", "lens"):
        if hasattr(obj, nm) and not isinstance(getattr(obj, nm), (list, tuple)):
            out.update({nm + "." + k: v for k, v in state(getattr(obj, nm)).items()})
    for k, p in obj.parameters.parameters.items():
        out[k] = p.value
        out[k + " default"] = p.default
    return out


def same_value(ctx, label, a, b):
    if a is None or b is None or isinstance(a, (str, bool, tuple, list)):
        return ctx.prove(label, a is b or a == b, "%r %r" % (a, b))
    same(ctx, label, a, b)


def tolist(a):
    return a.tolist() if isinstance(a, np.ndarray) else a


def check(ctx, op, extra, args, scribble=True, states=True):
    keep = copy.deepcopy(args)
    st = [state(o) for o in op.objs] if states else []
    first = op.call(*args, *extra)
    # not even the content of a result that is handed out later may change: keep a copy
    r1 = np.array(first)

    def unchanged(when):
        for n, (a, k) in enumerate(zip(args, keep)):
            if isinstance(a, np.ndarray):
                ctx.prove("the argument keeps its type", isinstance(k, np.ndarray) and a.dtype == k.dtype and a.shape == k.shape, str(n))
            else:
                ctx.prove("the argument keeps its type", type(a) is type(k))
            same(ctx, "the argument is not changed " + when, np.array(a), np.array(k))
        for o, s in zip(op.objs, st):
            now = state(o)
            ctx.prove("no parameter appears or vanishes", list(now) == list(s))
            for k in s:
                same_value(ctx, "the camera is not changed " + when, now[k], s[k])
    unchanged("by the call")
    second = op.call(*args, *extra)
    same(ctx, "the same call gives the same result", second, r1)
    same(ctx, "an earlier result is not changed by a later call", first, r1)
    if scribble and isinstance(first, np.ndarray) and first.shape:
        first[...] = 12345
        unchanged("by overwriting the result")
        same(ctx, "a result can be overwritten without consequences", op.call(*args, *extra), r1)
    return r1


def h_pure(ctx, name, form, kind="rect", lens="none", simple=False, generic=False):
    r = ops.make(ctx, name, kind, lens, simple, generic)
    extra = ()
    if isinstance(r, tuple):
        r, extra = r[0], r[1:]
        keepx = [np.array(x) for x in extra]
    if form == "single":
        args = [np.array(a) if np.shape(a) else a for a in r.gens(0)]
    elif form == "two":
        args = ops.stacked(ctx, [r.gens(0), r.gens(1)], (2,))
    else:
        args = ops.stacked(ctx, [r.gens(0)], (1,))
    ref = None
    if form == "lists":
        ref = r.call(*[np.array(a) for a in args], *extra)
        args = [tolist(a) for a in args]
    got = check(ctx, r, extra, args, scribble=not (name.startswith("lens") and lens == "none"))
    if ref is not None:
        same(ctx, "lists give the results of arrays", got, ref)
    if extra:
        for a, k in zip(extra, keepx):
            same(ctx, "the mesh is not changed", a, k)


INTS = {"space": [[3, 50, 2], [-4, 60, -1]], "pixel": [[100, 20], [350, 220]], "gps": [[52, 13], [-8, -120]], "gps3": [[52, 13, 100], [-8, -120, 7]], "camera": [[1, 2, -3], [4, -5, 6]]}


def h_int(ctx, what, kind="rect", lens="none"):
    """integer arrays and lists"""
    ct = ctx.ct
    I = intr(ctx)
    if ("Normed" in what or what.endswith("D")) and kind == "rect":
        I.update(center_x_px=200, center_y_px=150, focallength_y_px=I["focallength_x_px"])
    elif "Normed" in what or what.endswith("D"):
        # horizontal angles as multiples of one free angle
        a = ctx.deg("alpha", 0.1, 30)
        I.update(center_x_px=200, center_y_px=150, focallength_x_px=50 / (a * ctx.pi / 180))
    P = pose(ctx)
    cam = ct.Camera(projection(ctx, kind, I), ct.SpatialOrientation(**P), make_lens(ctx, lens, lens_coef(ctx, lens)))
    z = ctx.real("z", -10, 10)
    calls = dict(imageFromSpace=(cam.imageFromSpace, "space"), imageFromSpaceAll=(lambda p: cam.imageFromSpace(p, hide_backpoints=False), "space"),
                 getRay=(lambda p: cam.getRay(p)[1], "pixel"), getRayNormed=(lambda p: cam.getRay(p, normed=True)[1], "pixel"),
                 spaceFromImageZ=(lambda p: cam.spaceFromImage(p, Z=z), "pixel"), spaceFromImageD=(lambda p: cam.spaceFromImage(p, D=20), "pixel"),
                 spaceFromImageZ0=(lambda p: cam.spaceFromImage(p, Z=0), "pixel"), spaceFromImageX=(lambda p: cam.spaceFromImage(p, X=7), "pixel"),
                 spaceFromImageZs=(lambda p: cam.spaceFromImage(p, Z=np.array([0, 1])[:len(p)]) if np.ndim(p) == 2 else cam.spaceFromImage(p, Z=0), "pixel"),
                 cameraFromSpace=(cam.orientation.cameraFromSpace, "space"), spaceFromCamera=(cam.orientation.spaceFromCamera, "camera"),
                 imageFromCamera=(cam.projection.imageFromCamera, "camera"), projRay=(cam.projection.getRay, "pixel"), projRayNormed=(lambda p: cam.projection.getRay(p, normed=True), "pixel"),
                 distorted=(cam.lens.distortedFromImage, "pixel"))
    f, kindof = calls[what]
    data = INTS[kindof]
    for sub in (data, data[:1], data[1]):
        a = np.array(sub)
        keep = a.copy()
        ref = np.array(f(np.array(sub, dtype=float)))
        got = np.array(f(a))
        ctx.prove("an integer array is not changed", a.dtype == keep.dtype and bool((a == keep).all()))
        same(ctx, "integers give the results of the same numbers as floats", got, ref)
        lst = copy.deepcopy(sub)
        same(ctx, "lists of integers give the results of the same numbers as floats", np.array(f(lst)), ref)
        ctx.prove("a list is not changed", lst == sub)


def h_int_ray(ctx, what):
    ct = ctx.ct
    v = lambda n: vec(ctx, [ctx.real("%s%d" % (n, i), -10, 10) for i in range(3)])
    O, D = [1, 2, 3], [[1, 0, -2], [0, 1, -1]]
    T = [[0, 0, 0], [10, 0, 0], [0, 10, 1]]
    p, w = v("p"), v("w")
    if what == "mesh":
        f = lambda d: ct.ray.ray_intersect_triangle(p, d, np.array(T))
    elif what == "origin":
        f = lambda d: ct.ray.ray_intersect_triangle(np.array(O), d, np.array([p, p + vec(ctx, [3, 0, 1]), p + vec(ctx, [0, 2, 1])]))
    elif what == "closest":
        f = lambda d: ct.ray.getClosestPointFromLine(p, d, np.array([[3, 2, 1], [4, 5, 6]])[:len(d)] if np.ndim(d) == 2 else np.array([3, 2, 1]))
    elif what == "lines":
        ctx.pos(w[1] * w[1])
        W = np.array([w, w])
        f = lambda d: ct.ray.distanceOfTwoLines(np.array(O), d, p, W[:len(d)] if np.ndim(d) == 2 else w)
    for sub in (D, D[:1], D[1]):
        a = np.array(sub)
        keep = a.copy()
        ref = np.array(f(np.array(sub, dtype=float)))
        same(ctx, "integers give the results of the same numbers as floats", np.array(f(a)), ref)
        ctx.prove("an integer array is not changed", a.dtype == keep.dtype and bool((a == keep).all()))


def h_int_gps(ctx, what):
    ct = ctx.ct
    d, b = ctx.real("dist", 1000, 100000), ctx.deg("beta", -170, 170)
    f = dict(distance=lambda p: ct.getDistance(p, np.array(INTS["gps"])[::-1][:len(p)] if np.ndim(p) == 2 else [1, 2]),
             bearing=lambda p: ct.getBearing(p, [10, 20]))[what]
    for nm in ("gps", "gps3"):
        for sub in (INTS[nm], INTS[nm][1]):
            a = np.array(sub)
            keep = a.copy()
            ref = np.array(f(np.array(sub, dtype=float)))
            same(ctx, "integers give the results of the same numbers as floats", np.array(f(a)), ref)
            ctx.prove("an integer array is not changed", a.dtype == keep.dtype and bool((a == keep).all()))


def h_outputs(ctx, what, kind="rect", lens="none"):
    """functions with several results: all of them belong to the caller"""
    I = P = None
    if what in ("cone", "getRay-normed"):
        I = dict(focallength_x_px=500, focallength_y_px=400, center_x_px=2, center_y_px=1)
        P = dict(heading_deg=ctx.deg("heading", -360, 360), tilt_deg=60, roll_deg=0, pos_x_m=1, pos_y_m=2, elevation_m=ctx.real("ele", 1, 100))
    cam, I, P = camera(ctx, kind, I, P, lens=make_lens(ctx, lens, lens_coef(ctx, lens)), image=(4, 2) if what in ("border", "cone") else (400, 300))
    objs = [cam]
    p = vec(ctx, [ctx.real("u", -1000, 1000), ctx.real("v", -1000, 1000)])
    if what == "getRay-normed":
        p = vec(ctx, [p[0], p[1] if kind == "rect" else 7])
    q = ctx.vec("q", 3, -100, 100)
    q = cam.orientation.spaceFromCamera(vec(ctx, [q[0], q[1], -ctx.real("depth", 0.1, 100)]))
    args = [p]
    if what == "getRay":
        f = lambda p: cam.getRay(p)
    elif what == "getRay-normed":
        f = lambda p: cam.getRay(p, normed=True)
    elif what == "getRay-two":
        args = [stack(ctx, [p, p + vec(ctx, [3, 5])])]
        f = lambda p: cam.getRay(p)
    elif what == "getPos":
        args = []
        f = lambda: (cam.getPos(),)
    elif what == "border":
        args = []
        f = lambda: (cam.getImageBorder(),)
    elif what == "cone":
        args = []
        f = lambda: (cam.getCameraCone(D=3),)
    elif what == "group":
        cam2 = ctx.ct.Camera(cam.projection, ctx.ct.SpatialOrientation(pos_x_m=3, elevation_m=10, tilt_deg=40), cam.lens)
        group = ctx.ct.CameraGroup(cam.projection, [cam.orientation, cam2.orientation], cam.lens)
        objs = [cam, cam2]
        args = [q]
        f = lambda q: tuple(group.imagesFromSpace(q))
    keep = [np.array(a) for a in args]
    st = [state(o) for o in objs]
    first = f(*args)
    ref = [np.array(r) for r in first]
    pix = np.array(cam.imageFromSpace(q, hide_backpoints=False))
    for n in range(len(first)):
        if isinstance(first[n], np.ndarray) and first[n].shape:
            first[n][...] = 12345
            again = f(*args)
            ctx.prove("the number of results is the same", len(again) == len(ref))
            for m in range(len(ref)):
                same(ctx, "a result can be overwritten without consequences", again[m], ref[m])
            same(ctx, "the camera projects as before", cam.imageFromSpace(q, hide_backpoints=False), pix)
    for a, k in zip(args, keep):
        same(ctx, "the argument is not changed", a, k)
    for o, s0 in zip(objs, st):
        now = state(o)
        for k in s0:
            same_value(ctx, "the camera is not changed", now[k], s0[k])


HEAVY = ("camera.mesh", "ray.mesh", "ray.mesh-planes", "ray.mesh-origins", "camera.getObjectHeight", "camera.getObjectHeight-Z", "camera.getObjectLength", "camera.getObjectLength-Z",
         "pair.discanteBetweenRays", "pair.spaceFromImages")


def instances(tier):
    out = []
    for name, a in table(tier):
        k = dict(a)
        if name == "camera.mesh":
            k["simple"] = True
        opts = {} if "gps" in name.lower() else dict(feas_ms=0, max_paths=20000)
        forms = ["single", "one", "lists"]
        if name not in HEAVY and ("camera" not in name or "each" in name or "imageFromSpace" in name):
            forms.append("two")
        if name.startswith(("ray.intersection", "ray.distance", "ray.getClosest", "gps.spaceFromGPS", "gps.gpsFromSpace", "camera.gpsFromSpace", "camera.spaceFromGPS")):
            forms.remove("lists")
        base = k
        for form in forms:
            k = dict(base)
            if form == "lists" and (a.get("kind", "rect") != "rect" and tier == "quick" or "each" in name or name.endswith("-Z")):
                continue
            if name.startswith("camera.getObjectHeight") and (a["kind"], form) != ("rect", "one"):
                k["generic"] = (0, 1, 2)
            kk = dict(k, generic=(2,)) if name == "pair.imagesFromSpace" and form != "single" else k
            out.append(dict(name="-".join([name] + [str(v) for v in a.values()] + [form]), fn=h_pure, opts=opts, args=dict(name=name, form=form, **kk)))
    for kind in KINDS:
        for w in ("imageFromSpace", "imageFromSpaceAll", "getRay", "getRayNormed", "spaceFromImageZ", "spaceFromImageZ0", "spaceFromImageZs", "spaceFromImageD", "spaceFromImageX", "imageFromCamera", "projRay", "projRayNormed"):
            if kind == "equi" and w.startswith("spaceFromImage") and w != "spaceFromImageD":
                continue
            out.append(dict(name="int-%s-%s" % (w, kind), fn=h_int, opts=dict(feas_ms=0), args=dict(what=w, kind=kind)))
    for w in ("cameraFromSpace", "spaceFromCamera"):
        out.append(dict(name="int-" + w, fn=h_int, opts=dict(feas_ms=0), args=dict(what=w)))
    for L in ("brown", "abc"):
        for w in ("distorted", "imageFromSpace"):
            out.append(dict(name="int-%s-%s" % (w, L), fn=h_int, opts=dict(feas_ms=0), args=dict(what=w, lens=L)))
    for kind in KINDS:
        for w in ("getRay", "getRay-normed", "getRay-two", "getPos", "border", "cone", "group"):
            if kind != "rect" and w in ("cone", "border", "getPos"):
                continue
            out.append(dict(name="outputs-%s-%s" % (w, kind), fn=h_outputs, opts=dict(feas_ms=0, max_paths=20000), args=dict(what=w, kind=kind)))
    out.append(dict(name="outputs-getRay-brown", fn=h_outputs, opts=dict(feas_ms=0), args=dict(what="getRay", lens="brown")))
    for w in ("mesh", "origin", "closest", "lines"):
        out.append(dict(name="int-ray-" + w, fn=h_int_ray, opts=dict(feas_ms=0), args=dict(what=w)))
    for w in ("distance", "bearing"):
        out.append(dict(name="int-gps-" + w, fn=h_int_gps, args=dict(what=w)))
    return out
