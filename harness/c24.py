"""C24: top views and undistorted images take every pixel from the right place, also after changes."""
import contextlib
import sys
import types
import numpy as np
from .common import *
from .c19 import same
from .c07 import EXT, EXTY, INT, new_value, build, update, lens_names, component

META = dict(bounds="resulting images of 1x1 to 3x2 pixels (thorough: 3x3) with symbolic position, symbolic pixel size (scaling) and symbolic remainder at the end of the extent; any pose, height Z and intrinsics; lenses none, brown and abc for the undistorted image; "
                   "histories of two and three calls with a change of one parameter (every parameter of the camera), extent, scaling, height or hiding in between; grey, colour and colour with alpha images",
            stubs=["cv2.remap is replaced by a recorder: the resulting image holds for every pixel the position it is taken from"],
            assumptions=["extents that are guessed by the code are not checked"])


class Recorder:
    def __init__(self):
        self.calls = []

    def remap(self, src, map1, map2=None, interpolation=None, dst=None, borderMode=None, borderValue=None):
        if map2 is None or np.size(map2) == 0:
            x, y = map1[..., 0], map1[..., 1]
        else:
            x, y = map1, map2
        self.calls.append(dict(src=src, interpolation=interpolation))
        out = np.empty(np.shape(x) + (2,), dtype=np.asarray(x).dtype)
        out[..., 0] = x
        out[..., 1] = y
        return out


@contextlib.contextmanager
def recording():
    r = Recorder()
    try:
        import cv2 as real
    except ImportError:
        real = types.ModuleType("cv2")
    fake = types.ModuleType("cv2")
    for n in dir(real):
        if not n.startswith("__"):
            setattr(fake, n, getattr(real, n))
    fake.remap = r.remap
    old = sys.modules.get("cv2")
    sys.modules["cv2"] = fake
    try:
        yield r
    finally:
        if old is None:
            del sys.modules["cv2"]
        else:
            sys.modules["cv2"] = old


IMAGES = dict(grey=np.arange(12, dtype="uint8").reshape(3, 4), colour=np.arange(36, dtype="uint8").reshape(3, 4, 3), alpha=np.arange(48, dtype="uint8").reshape(3, 4, 4))


def area(ctx, i, n, lo=-500, hi=500):
    """an extent with n = (columns, rows) steps"""
    x0, y0, s = ctx.real("x0_%s" % i, lo, hi), ctx.real("y0_%s" % i, lo, hi), ctx.real("s_%s" % i, 0.1, 100, prefer=(0.5, 20))
    t, u = ctx.real("t_%s" % i, 0.01, 1, prefer=(0.05, 0.95)), ctx.real("u_%s" % i, 0.01, 1, prefer=(0.05, 0.95))
    if not ctx.symbolic:
        ctx.assume(t < 0.99 and u < 0.99)
    return dict(x0=x0, y0=y0, s=s, n=n, extent=[x0, x0 + (n[0] - 1 + t) * s, y0, y0 + (n[1] - 1 + u) * s])


def models(ctx, kind, lens, orient, fixed=False):
    names = [n for n in (EXT if orient == "thr" else EXTY) + INT if n != "focallength_px"] + list(lens_names(lens))
    m = {n: new_value(ctx, n, 0) for n in names}
    m["image_width_px"], m["image_height_px"] = 4, 3
    if fixed:
        m.update(dict(tilt_deg=60., roll_deg=0., heading_deg=0.))
    return m


def source(ctx, r, label, image):
    src = r.calls[-1]["src"]
    im = IMAGES[image]
    ok = np.shape(src)[:2] == im.shape[:2]
    if image == "grey":
        ok = ok and np.shape(src) == im.shape and np.all(np.array(src) == im)
    else:
        ok = ok and np.shape(src) == (3, 4, 4) and np.all(np.array(src)[:, :, :3] == im[:, :, :3])
        if ok and image == "colour":
            ok = np.all(np.array(src)[:, :, 3] == 255)
        elif ok:
            ok = np.all(np.array(src)[:, :, 3] == im[:, :, 3])
    ctx.prove(label, bool(ok), str(np.shape(src)))


def deep(ctx, fresh, p):
    """not exactly beside the camera (see C04)"""
    c = fresh.orientation.cameraFromSpace(vec(ctx, p))
    ctx.nonzero(c[2])
    if not ctx.symbolic:
        ctx.assume(abs(c[2]) > 1e-3)


def check_top(ctx, cam, fresh, A, Z, hide, image="grey", kw=()):
    args = dict(extent=A["extent"], scaling=A["s"])
    args.update(kw)
    if Z is not None:
        args["Z"] = Z
    if hide is not None:
        args["hide_backpoints"] = hide
    nx, ny = A["n"]
    for row in range(ny):
        for col in range(nx):
            deep(ctx, fresh, [A["x0"] + col * A["s"], A["y0"] + row * A["s"], 0 if Z is None else Z])
    with recording() as r:
        got = cam.getTopViewOfImage(IMAGES[image], **args)
    ctx.prove("one pixel per step of the extent", np.shape(got)[:2] == (ny, nx), str(np.shape(got)))
    source(ctx, r, "the top view shows the given image", image)
    for row in range(ny):
        for col in range(nx):
            p = vec(ctx, [A["x0"] + col * A["s"], A["y0"] + (ny - 1 - row) * A["s"], 0 if Z is None else Z])
            e = fresh.imageFromSpace(p, hide_backpoints=True if hide is None else hide)
            same(ctx, "a pixel of the top view shows the point of the plane it stands for", got[row, col], e)


def check_und(ctx, cam, fresh, A, image="grey", kw=()):
    args = dict(extent=A["extent"], scaling=A["s"])
    args.update(kw)
    with recording() as r:
        got = cam.undistortImage(IMAGES[image], **args)
    nx, ny = A["n"]
    ctx.prove("one pixel per step of the extent", np.shape(got)[:2] == (ny, nx), str(np.shape(got)))
    source(ctx, r, "the undistorted image shows the given image", image)
    for row in range(ny):
        for col in range(nx):
            p = vec(ctx, [A["x0"] + col * A["s"], A["y0"] + row * A["s"]])
            same(ctx, "a pixel of the undistorted image shows its distorted position", got[row, col], fresh.lens.distortedFromImage(p))


def h_top(ctx, kind, orient, n, z, hide, image, kw=()):
    m = models(ctx, kind, "none", orient)
    Z = ctx.real("Z", -100, 100) if z else None
    check_top(ctx, build(ctx, kind, "none", orient, m), build(ctx, kind, "none", orient, m), area(ctx, 0, n), Z, hide, image, kw)


def h_top_default(ctx, ext):
    """without a scaling: about as many pixels as the image has"""
    m = models(ctx, "rect", "none", "thr")
    m.update(tilt_deg=0., roll_deg=0.)
    cam, fresh = build(ctx, "rect", "none", "thr", m), build(ctx, "rect", "none", "thr", m)
    deep(ctx, fresh, [ext[0], ext[2], 0])
    with recording() as r:
        got = cam.getTopViewOfImage(IMAGES["grey"], extent=list(ext), hide_backpoints=False)
        again = cam.getTopViewOfImage(IMAGES["grey"], extent=list(ext), hide_backpoints=False)
    n = np.shape(got)[0] * np.shape(got)[1]
    ctx.prove("about as many pixels as the image", 12 / 2.5 <= n <= 12 * 2.5, str(np.shape(got)))
    ratio = (ext[1] - ext[0]) / (ext[3] - ext[2])
    ctx.prove("square pixels", abs(np.shape(got)[1] - np.shape(got)[0] * ratio) <= 1 + ratio, str(np.shape(got)))
    same(ctx, "the last line starts at the corner of the extent", got[-1, 0], fresh.imageFromSpace(vec(ctx, [ext[0], ext[2], 0]), hide_backpoints=False))
    ctx.prove("the same again", np.shape(again) == np.shape(got))
    for i in np.ndindex(*np.shape(got)[:2]):
        same(ctx, "the same again", again[i], got[i])


def h_und(ctx, lens, n, image, kw=()):
    m = models(ctx, "rect", lens, "thr", True)
    check_und(ctx, build(ctx, "rect", lens, "thr", m), build(ctx, "rect", lens, "thr", m), area(ctx, 0, n), image, kw)


def h_und_default(ctx, lens, given):
    m = models(ctx, "rect", lens, "thr", True)
    cam, fresh = build(ctx, "rect", lens, "thr", m), build(ctx, "rect", lens, "thr", m)
    A = dict(x0=0, y0=0, s=1, n=(4, 3), extent=[0, 4, 0, 3])
    kw = dict(extent=None if "extent" not in given else A["extent"], scaling=None if "scaling" not in given else 1)
    check_und(ctx, cam, fresh, A, "grey", kw)


def h_size(ctx, what, kind):
    m = models(ctx, "rect", "none", "thr", True)
    m["image_width_px"], m["image_height_px"] = dict(width=(5, 3), height=(4, 2), swapped=(3, 4))[kind]
    cam = build(ctx, "rect", "none", "thr", m)
    A = area(ctx, 0, (2, 1))
    f = cam.getTopViewOfImage if what == "top" else cam.undistortImage
    with recording():
        ctx.raises("an image of another size is refused", AssertionError, lambda: f(IMAGES["grey"], extent=A["extent"], scaling=A["s"]))
    fresh = build(ctx, "rect", "none", "thr", m)
    if what == "top":
        check_top(ctx, cam, fresh, A, None, None, "grey", dict(skip_size_check=True))
    else:
        check_und(ctx, cam, fresh, A, "grey", dict(skip_size_check=True))


def h_history(ctx, what, kind, lens, orient, change, three=False):
    m = models(ctx, kind, lens, orient, what == "und")
    cam = build(ctx, kind, lens, orient, m)
    n = (1, 1)
    A = area(ctx, 0, n)
    Z, hide = (ctx.real("Z", -100, 100), False) if what == "top" else (None, None)

    def check(m, A, Z, hide):
        fresh = build(ctx, kind, lens, orient, m)
        if what == "top":
            check_top(ctx, cam, fresh, A, Z, hide, "grey", dict(skip_size_check=True))
        else:
            check_und(ctx, cam, fresh, A, "grey", dict(skip_size_check=True))
    check(m, A, Z, hide)
    m2, A2, Z2, hide2 = dict(m), A, Z, hide
    if change.startswith("parameter"):
        names = list(m)
        p = names[ctx.choice("p", len(names))]
        v = new_value(ctx, p, 1)
        ctx.nonzero(v - m[p])
        if change.endswith("fit"):
            cam.parameters.set_fit_parameters({p: v})
        elif change.endswith("component"):
            setattr(component(cam, p), p, v)
        else:
            setattr(cam, p, v)
        update(m2, p, v)
    elif change == "extent":
        A2 = area(ctx, 1, n)
        ctx.nonzero(A2["x0"] - A["x0"])
        ctx.nonzero(A2["y0"] - A["y0"])
        A2 = dict(A2, s=A["s"], extent=[A2["x0"], A2["x0"] + A["s"] * 0.5, A2["y0"], A2["y0"] + A["s"] * 0.5])
    elif change.startswith("extent-"):
        k = int(change[-1])
        A2 = dict(A, extent=list(A["extent"]))
        if k == 0:
            A2["x0"] = A2["extent"][0] = A["x0"] + A["s"] * 0.001
        elif k == 2:
            A2["y0"] = A2["extent"][2] = A["y0"] + A["s"] * 0.001
        elif k == 1:
            A2["extent"][1] += A["s"]
            A2["n"] = (2, 1)
        else:
            A2["extent"][3] += A["s"]
            A2["n"] = (1, 2)
    elif change == "scaling":
        # extent as before: 1x1 also for the new, larger pixel
        s2 = A["s"] * ctx.real("s2", 1.1, 10)
        A2 = dict(A, s=s2)
        for i in (0, 2):
            ctx.neg(A["extent"][i + 1] - A["extent"][i] - s2)
    elif change == "Z":
        Z2 = ctx.real("Z2", -100, 100)
        ctx.nonzero(Z2 - Z)
    elif change == "hide":
        hide2 = True
    check(m2, A2, Z2, hide2)
    if three:
        if not change.startswith("parameter"):
            check(m, A, Z, hide)
        else:
            setattr(cam, p, m[p])
            check(m, A, Z, hide)


def h_calls(ctx, what, lens, first, second):
    """any two calls: the second gives what a fresh camera gives"""
    m = models(ctx, "rect", lens, "thr", True)
    if what == "top":
        m.update(tilt_deg=0., roll_deg=0., elevation_m=ctx.real("up", 1, 100))
    else:
        # no pixel of the grid in the optical centre
        m.update(center_x_px=1.75, center_y_px=1.25, focallength_x_px=500, focallength_y_px=400)
    cam, fresh = build(ctx, "rect", lens, "thr", m), build(ctx, "rect", lens, "thr", m)
    E, F = [-3, 4, 100, 107], [-4, 4, 100, 106]
    kws = dict(default={}, E=dict(extent=E), F=dict(extent=F), Es=dict(extent=E, scaling=4), Es2=dict(extent=E, scaling=5), s=dict(scaling=2), s1=dict(scaling=1), EZ=dict(extent=E, Z=0.5), EsZ=dict(extent=E, scaling=4, Z=0.5))
    out = []
    for c, names in ((cam, (first, second)), (fresh, (second,))):
        for nm in names:
            kw = dict(kws[nm])
            f = c.undistortImage
            if what == "top":
                f, kw["hide_backpoints"] = c.getTopViewOfImage, False
            with recording():
                got = np.array(f(IMAGES["grey"], **kw))
        out.append(got)
    a, b = out
    ctx.prove("the same number of pixels as without an earlier call", a.shape == b.shape, "%s %s" % (a.shape, b.shape))
    for i in np.ndindex(*b.shape[:2]):
        same(ctx, "the same positions as without an earlier call", a[i], b[i])


def h_mutate(ctx, what):
    """the caller changes its own extent list between two calls"""
    m = models(ctx, "rect", "none", "thr", True)
    cam = build(ctx, "rect", "none", "thr", m)
    A = area(ctx, 0, (1, 1))
    B = area(ctx, 1, (1, 1))
    ctx.nonzero(A["x0"] - B["x0"])
    ext = list(A["extent"])
    A = dict(A, extent=ext)
    fresh = build(ctx, "rect", "none", "thr", m)
    f = (lambda A: check_top(ctx, cam, fresh, A, None, False)) if what == "top" else (lambda A: check_und(ctx, cam, fresh, A))
    f(A)
    ctx.eq("the list of the caller is not changed", vec(ctx, ext), vec(ctx, area(ctx, 0, (1, 1))["extent"]))
    ext[0], ext[1] = B["x0"], B["x0"] + A["s"] * 0.5
    f(dict(A, x0=B["x0"]))


def h_cross(ctx, lens):
    """top view and undistorted image of the same camera do not disturb each other"""
    m = models(ctx, "rect", lens, "thr", True)
    if lens != "none":
        raise KeyError
    cam = build(ctx, "rect", lens, "thr", m)
    fresh = build(ctx, "rect", lens, "thr", m)
    A = area(ctx, 0, (1, 1))
    check_top(ctx, cam, fresh, A, None, False)
    check_und(ctx, cam, fresh, A)
    check_top(ctx, cam, fresh, A, None, False)
    check_und(ctx, cam, fresh, A)


def instances(tier):
    out = []
    fast = dict(feas_ms=0, max_paths=20000)
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, opts=fast, nreplay=3))
    for n in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)) + (((3, 3),) if tier != "quick" else ()):
        for z in (0, 1):
            add("top-rect-%dx%d-all-%d" % (n + (z,)), h_top, kind="rect", orient="thr", n=n, z=z, hide=False, image="grey")
    for n in ((1, 1), (2, 1), (1, 2)):
        for hide in (None, True):
            add("top-rect-%dx%d-%s" % (n + (hide,)), h_top, kind="rect", orient="ypr", n=n, z=1, hide=hide, image="grey")
    for kind in ("cyl", "equi"):
        add("top-%s" % kind, h_top, kind=kind, orient="thr", n=(1, 2), z=1, hide=False, image="grey")
    for image in IMAGES:
        add("top-image-%s" % image, h_top, kind="rect", orient="thr", n=(2, 1), z=0, hide=False, image=image)
        add("und-image-%s" % image, h_und, lens="brown", n=(2, 1), image=image)
    for i, e in enumerate(((-10, 10, 5, 25), (0, 30, 0, 10), (-3, 4, 100, 107))):
        add("top-scaling-%d" % i, h_top_default, ext=e)
    for lens in LENSES:
        for n in ((1, 1), (2, 1), (1, 2), (3, 2)):
            add("und-%s-%dx%d" % ((lens,) + n), h_und, lens=lens, n=n, image="grey")
        for given in ((), ("extent",), ("scaling",)):
            add("und-%s-given-%s" % (lens, "".join(given)), h_und_default, lens=lens, given=given)
    for what in ("top", "und"):
        for k in ("width", "height", "swapped"):
            add("size-%s-%s" % (what, k), h_size, what=what, kind=k)
        add("mutate-%s" % what, h_mutate, what=what)
    for what, lens, names in (("top", "none", ("E", "F", "Es", "Es2", "EZ", "EsZ")), ("und", "brown", ("default", "E", "F", "Es", "Es2", "s", "s1"))):
        for a in names:
            for b in names:
                if a != b:
                    add("calls-%s-%s-%s" % (what, a, b), h_calls, what=what, lens=lens, first=a, second=b)
    add("cross", h_cross, lens="none")
    changes = ["parameter", "parameter-fit", "parameter-component", "extent", "extent-0", "extent-1", "extent-2", "extent-3", "scaling", "Z", "hide"]
    for c in changes:
        for three in (False, True):
            add("history-top-%s-%d" % (c, three), h_history, what="top", kind="rect", lens="none", orient="thr", change=c, three=three)
            if c not in ("Z", "hide"):
                for lens in ("brown", "abc"):
                    add("history-und-%s-%s-%d" % (lens, c, three), h_history, what="und", kind="rect", lens=lens, orient="thr", change=c, three=three)
    add("history-top-cyl", h_history, what="top", kind="cyl", lens="none", orient="ypr", change="parameter")
    add("history-top-equi", h_history, what="top", kind="equi", lens="none", orient="thr", change="parameter-fit")
    return out
