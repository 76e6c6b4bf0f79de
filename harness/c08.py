"""C08: save and load restore the camera."""
import os
import shutil
import tempfile

import numpy as np
from .common import *
from .c07 import build, start, observe, lens_names, new_value, component, EXT, EXTY, INT, all_params, update

META = dict(bounds="every projection x lens x orientation type, all numeric parameters symbolic inside their bounds, optionally one parameter changed or reset "
                   "before saving; loading into a new camera or into an existing camera of any other type; files in a scratch directory",
            stubs=["json text of a symbolic number is an opaque token (concrete numbers go through the real json text)", "scipy splines as in C09"])


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-c08-")
        return os.path.join(self.d, "camera.json")

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def values(cam):
    return {n: getattr(cam, n) for n in cam.parameters.parameters if n != "focallength_px"}


def same(ctx, a, b, before, kind, lens, tag):
    ctx.prove(tag + "same projection type", type(b.projection) is type(a.projection), "%s %s" % (type(a.projection), type(b.projection)))
    ctx.prove(tag + "same lens type", type(b.lens) is type(a.lens), "%s %s" % (type(a.lens), type(b.lens)))
    ctx.prove(tag + "same orientation type", type(b.orientation) is type(a.orientation), "%s %s" % (type(a.orientation), type(b.orientation)))
    va, vb = values(a), values(b)
    ctx.prove(tag + "same parameters", set(va) == set(vb), "%s" % (set(va) ^ set(vb)))
    for n in va:
        ctx.eq(tag + "parameter %s is restored" % n, vb[n], before[n])
        ctx.eq(tag + "saving does not change %s" % n, va[n], before[n])
    pix = vec(ctx, [before["center_x_px"] + before["focallength_x_px"] * ctx.real("qx", 0.1, 1), before["center_y_px"] + before["focallength_y_px"] * ctx.real("qy", 0.1, 1)])
    pt = vec(ctx, ctx.vec("pt", 3, -500, 500))
    oa, ob = observe(ctx, a, kind, lens, pix, pt), observe(ctx, b, kind, lens, pix, pt)
    for k in oa:
        ctx.eq(tag + "same behaviour: " + k, ob[k], oa[k])
    if lens != "none":
        u, ph = ctx.real("lu", 0.05, 1.4), ctx.real("lphi", -180, 180)
        ctx.hint(u)
        K = {n: before[n] for n in lens_names(lens)}
        I = dict(focallength_x_px=before["focallength_x_px"], focallength_y_px=before["focallength_y_px"])
        sx, sy = lens_scale(ctx, lens, I, (before["image_width_px"], before["image_height_px"]))
        v = radius_doc(lens, K, u)
        d = vec(ctx, [before["center_x_px"] + sx * v * ctx.cosd(ph), before["center_y_px"] + sy * v * ctx.sind(ph)])
        q = vec(ctx, [before["center_x_px"] + sx * u * ctx.cosd(ph), before["center_y_px"] + sy * u * ctx.sind(ph)])
        ctx.eq(tag + "same inverse of the lens", b.lens.imageFromDistorted(d), q, tol=1e-3)


def prepared(ctx, kind, lens, orient, change):
    ct = ctx.ct
    names, m = start(ctx, kind, lens, orient)
    cam = build(ctx, kind, lens, orient, m)
    if change == "gps":
        cam.setGPSpos(ctx.real("lat", -90, 90), ctx.real("lon", -180, 180), ctx.real("gele", 0, 1000))
    elif change == "sensor":
        cam.sensor_width_mm = ctx.real("sw", 1, 50)
        cam.sensor_height_mm = ctx.real("sh", 1, 50)
        cam.gps_lat = ctx.real("lat", -90, 90)
        cam.gps_lon = ctx.real("lon", -180, 180)
    elif change == "one":
        params = all_params(lens, orient)
        n = params[ctx.choice("n", len(params))]
        r = ctx.choice("route", 4)
        v = new_value(ctx, n, 1)
        if r == 0:
            setattr(cam, n, v)
        elif r == 1:
            cam.parameters.set_fit_parameters({n: v})
        elif r == 2:
            setattr(cam, n, (v, 0.1))
        elif n in EXT or n in lens_names(lens):
            setattr(cam, n, None)
    return cam


def h_roundtrip(ctx, kind, lens, orient, change):
    ct = ctx.ct
    cam = prepared(ctx, kind, lens, orient, change)
    before = values(cam)
    with Scratch() as f:
        cam.save(f)
        b = ct.load_camera(f)
    same(ctx, cam, b, before, kind, lens, "")


def h_existing(ctx, kind, lens, orient):
    """load into an existing camera of another type, which has changed parameters and log-probability terms"""
    ct = ctx.ct
    cam = prepared(ctx, kind, lens, orient, "sensor")
    before = values(cam)
    i = ctx.choice("other", 3)
    k2, l2, o2 = (("equi", "brown", "ypr"), ("cyl", "abc", "thr"), ("rect", "none", "thr"))[i]
    names2, m2 = start2(ctx, k2, l2, o2)
    other = build(ctx, k2, l2, o2, m2)
    other.elevation_m = ctx.real("oele", 0, 100)
    with Scratch() as f:
        cam.save(f)
        other.load(f)
        same(ctx, cam, other, before, kind, lens, "existing camera: ")
        # the file is the only link between the cameras
        setattr(other, "elevation_m", ctx.real("oele2", 0, 100))
        ctx.eq("cameras stay independent", cam.elevation_m, before["elevation_m"])
        again = ct.load_camera(f)
        ctx.eq("the file can be loaded again", again.elevation_m, before["elevation_m"])


def start2(ctx, kind, lens, orient):
    names = [n for n in (EXT if orient == "thr" else EXTY) + INT if n != "focallength_px"] + list(lens_names(lens))
    return names, {n: new_value(ctx, n, 5) for n in names}


def h_component(ctx, what):
    """projection, orientation and lens have their own files"""
    ct = ctx.ct
    kind, lens, orient = dict(rect=("rect", "none", "thr"), cyl=("cyl", "none", "thr"), equi=("equi", "none", "thr"), thr=("rect", "none", "thr"), ypr=("rect", "none", "ypr"),
                              brown=("rect", "brown", "thr"), abc=("rect", "abc", "thr"))[what]
    names, m = start(ctx, kind, lens, orient)
    a = build(ctx, kind, lens, orient, m)
    n2, m2 = start2(ctx, kind, lens, orient)
    b = build(ctx, kind, lens, orient, m2)
    part = lambda c: c.projection if what in KINDS else c.orientation if what in ("thr", "ypr") else c.lens
    comp = [n for n in part(a).parameters.parameters if n != "focallength_px"]
    before = {n: getattr(part(a), n) for n in comp}
    with Scratch() as f:
        part(a).save(f)
        part(b).load(f)
    model = dict(m2)
    for n in comp:
        ctx.eq("component parameter %s is restored" % n, getattr(part(b), n), before[n])
        ctx.eq("saving does not change %s" % n, getattr(part(a), n), before[n])
        if n in model:
            model[n] = before[n]
    from .c07 import compare
    compare(ctx, b, model, kind, lens, orient)


def instances(tier):
    out = []
    for kind in KINDS:
        for lens in LENSES:
            for orient in ("thr", "ypr"):
                for change in (None, "gps", "sensor", "one"):
                    if change == "one" and tier == "quick" and (kind, orient) not in (("rect", "thr"), ("equi", "ypr"), ("cyl", "thr")):
                        continue
                    out.append(dict(name="save-%s-%s-%s-%s" % (kind, lens, orient, change), fn=h_roundtrip, args=dict(kind=kind, lens=lens, orient=orient, change=change), weight=5 if change == "one" else 1))
                out.append(dict(name="existing-%s-%s-%s" % (kind, lens, orient), fn=h_existing, args=dict(kind=kind, lens=lens, orient=orient), weight=2))
    for what in KINDS + ("thr", "ypr", "brown", "abc"):
        out.append(dict(name="component-%s" % what, fn=h_component, args=dict(what=what)))
    return out
