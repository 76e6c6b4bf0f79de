"""C07: parameter changes by any route take effect immediately and only where intended (fresh-camera equivalence)."""
import numpy as np
from .common import *

META = dict(bounds="histories of 1 to 3 parameter changes over every parameter of projection, orientation and lens and every public route "
                   "(camera attribute, component attribute, parameter set, fit-parameter call with dict or lists, (mean, std) tuple, defaults, reset to None); "
                   "all values symbolic inside their bounds; observed through imageFromSpace, getRay, spaceFromImage, field of view, lens and getters",
            stubs=["scipy splines as in C09"])

EXT = ("elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m")
EXTY = ("elevation_m", "yaw_deg", "pitch_deg", "roll_deg", "pos_x_m", "pos_y_m")
INT = ("focallength_x_px", "focallength_y_px", "focallength_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px")
DEF = dict(elevation_m=30, tilt_deg=85, roll_deg=0, heading_deg=0, pos_x_m=0, pos_y_m=0, yaw_deg=None, pitch_deg=None, center_x_px=0, center_y_px=0)
RNG = dict(elevation_m=(-100, 1000), tilt_deg=(-180, 180), roll_deg=(-180, 180), heading_deg=(-360, 360), yaw_deg=(-360, 360), pitch_deg=(-180, 180), pos_x_m=(-500, 500),
           pos_y_m=(-500, 500), focallength_x_px=(10, 10000), focallength_y_px=(10, 10000), focallength_px=(10, 10000), center_x_px=(-1000, 1000), center_y_px=(-1000, 1000),
           image_width_px=(50, 99), image_height_px=(100, 200))
ROUTES = ("camera", "component", "parameters", "component-parameters", "fit-dict", "fit-lists", "component-fit", "stats")


def new_value(ctx, name, i):
    if name in RNG:
        lo, hi = RNG[name]
    else:
        lo, hi = dict(k1=(-0.03, 0.03), k2=(-0.003, 0.003), k3=(-0.0005, 0.0005)).get(name, (-0.02, 0.02))
    return ctx.real("v%d_%s" % (i, name), lo, hi)


def component(cam, name):
    for c in (cam.orientation, cam.projection):
        if name in c.parameters.parameters:
            return c
    return cam.lens


def apply(ctx, cam, name, route, v):
    comp = component(cam, name)
    if route == "camera":
        setattr(cam, name, v)
    elif route == "component":
        setattr(comp, name, v)
    elif route == "parameters":
        setattr(cam.parameters, name, v)
    elif route == "component-parameters":
        setattr(comp.parameters, name, v)
    elif route == "fit-dict":
        cam.parameters.set_fit_parameters({name: v})
    elif route == "fit-lists":
        cam.parameters.set_fit_parameters([name], [v])
    elif route == "component-fit":
        comp.parameters.set_fit_parameters({name: v})
    elif route == "stats":
        setattr(cam, name, (v, 0.5))
    elif route == "none":
        setattr(cam, name, None)
    else:
        raise KeyError(route)


def update(model, name, v):
    if name == "focallength_px":
        model["focallength_x_px"] = model["focallength_y_px"] = v
    else:
        model[name] = v


def build(ctx, kind, lens, orient, m):
    ct = ctx.ct
    C = getattr(ct, CLS[kind])
    p = C(focallength_x_px=m["focallength_x_px"], focallength_y_px=m["focallength_y_px"], center_x_px=m["center_x_px"], center_y_px=m["center_y_px"],
          image_width_px=m["image_width_px"], image_height_px=m["image_height_px"])
    o = ct.SpatialOrientation(**{n: m[n] for n in EXT}) if orient == "thr" else ct.SpatialOrientationYawPitchRoll(**{n: m[n] for n in EXTY})
    L = make_lens(ctx, lens, {n: m[n] for n in lens_names(lens)})
    return ct.Camera(p, o, L)


def lens_names(lens):
    return dict(none=(), brown=("k1", "k2", "k3"), abc=("a", "b", "c"))[lens]


def start(ctx, kind, lens, orient, defaults=()):
    names = [n for n in (EXT if orient == "thr" else EXTY) + INT if n != "focallength_px"] + list(lens_names(lens))
    m = {n: new_value(ctx, n, 0) for n in names}
    for n in defaults:
        m[n] = None
    return names, m


def observe(ctx, cam, kind, lens, pixmul, pt):
    """everything a user can see, at a symbolic point and pixel"""
    out = {}
    p, o, L = cam.projection, cam.orientation, cam.lens
    out["camera coordinates"] = o.cameraFromSpace(pt)
    out["camera position"] = cam.getPos()
    out["origin of the rays"] = o.spaceFromCamera([0, 0, 0])
    out["field of view"] = p.getFieldOfView()
    if lens != "none":
        out["distorted pixel"] = L.distortedFromImage(pixmul)
        out["projected point"] = p.imageFromCamera(np.array([1.0, 2.0, -3.0]))
        out["ray"] = o.spaceFromCamera(p.getRay(pixmul), direction=True)
    else:
        out["ray"] = cam.getRay(pixmul)[1]
        out["projected point"] = cam.projection.imageFromCamera(np.array([1.0, 2.0, -3.0]))
    return out


def compare(ctx, cam, model, kind, lens, orient):
    full = {n: (DEF.get(n) if v is None else v) for n, v in model.items()}
    fresh = build(ctx, kind, lens, orient, full)
    pix = vec(ctx, [full["center_x_px"] + full["focallength_x_px"] * ctx.real("qx", 0.1, 1), full["center_y_px"] + full["focallength_y_px"] * ctx.real("qy", 0.1, 1)])
    pt = vec(ctx, ctx.vec("pt", 3, -500, 500))
    a = observe(ctx, cam, kind, lens, pix, pt)
    b = observe(ctx, fresh, kind, lens, pix, pt)
    for k in a:
        ctx.eq("same as a new camera with these parameters: " + k, a[k], b[k])
    for n, v in full.items():
        ctx.eq("the camera shows the value", getattr(cam, n), v)
        ctx.eq("the component shows the value", getattr(component(cam, n), n), v)
        ctx.eq("the parameter set shows the value", getattr(cam.parameters, n), v)
    if lens == "brown":
        u, ph = ctx.real("lu", 0.05, 1.4), ctx.real("lphi", -180, 180)
        ctx.hint(u)
        K = {n: full[n] for n in lens_names(lens)}
        v = radius_doc(lens, K, u)
        d = vec(ctx, [full["center_x_px"] + full["focallength_x_px"] * v * ctx.cosd(ph), full["center_y_px"] + full["focallength_y_px"] * v * ctx.sind(ph)])
        q = vec(ctx, [full["center_x_px"] + full["focallength_x_px"] * u * ctx.cosd(ph), full["center_y_px"] + full["focallength_y_px"] * u * ctx.sind(ph)])
        ctx.eq("the inverse of the lens follows the parameters", cam.lens.imageFromDistorted(d), q, tol=1e-3)
    if lens == "abc":
        u, ph = ctx.real("lu", 0.05, 1.4), ctx.real("lphi", -180, 180)
        ctx.hint(u)
        K = {n: full[n] for n in lens_names(lens)}
        v = radius_doc(lens, K, u)
        s = full["image_width_px"] / 2
        d = vec(ctx, [full["center_x_px"] + s * v * ctx.cosd(ph), full["center_y_px"] + s * v * ctx.sind(ph)])
        q = vec(ctx, [full["center_x_px"] + s * u * ctx.cosd(ph), full["center_y_px"] + s * u * ctx.sind(ph)])
        ctx.eq("the inverse of the lens follows the parameters", cam.lens.imageFromDistorted(d), q, tol=1e-3)


def all_params(lens, orient):
    return list((EXT if orient == "thr" else EXTY) + INT) + list(lens_names(lens))


def h_history(ctx, kind, lens, orient, routes):
    names, m = start(ctx, kind, lens, orient)
    cam = build(ctx, kind, lens, orient, m)
    params = all_params(lens, orient)
    for i, route in enumerate(routes):
        n = params[ctx.choice("p%d" % i, len(params))]
        v = new_value(ctx, n, i + 1)
        apply(ctx, cam, n, route, v)
        update(m, n, v)
    compare(ctx, cam, m, kind, lens, orient)


def h_multi(ctx, kind, lens, orient, form):
    """all parameters in one fit call"""
    names, m = start(ctx, kind, lens, orient)
    cam = build(ctx, kind, lens, orient, m)
    new = {n: new_value(ctx, n, 1) for n in names}
    if form == "dict":
        cam.parameters.set_fit_parameters(new)
    elif form == "lists":
        cam.parameters.set_fit_parameters(list(new), [new[n] for n in new])
    else:
        cam.parameters.set_fit_parameters(new.keys(), new.values())
    compare(ctx, cam, new, kind, lens, orient)
    # unknown names (e.g. additional parameters of a fit) are ignored
    cam.parameters.set_fit_parameters(dict(not_a_parameter=1.0))
    compare(ctx, cam, new, kind, lens, orient)


def h_defaults(ctx, kind, lens, orient):
    """parameters that are not given follow their defaults; reset to None returns to the default"""
    names, m = start(ctx, kind, lens, orient)
    withdef = [n for n in names if n in DEF or n in lens_names(lens)]
    n = withdef[ctx.choice("n", len(withdef))]
    cam = build(ctx, kind, lens, orient, m)
    dv = new_value(ctx, n, 7)
    how = ctx.choice("how", 3)
    model = dict(m)
    if how == 0:
        setattr(cam, n, None)
        model[n] = getattr(cam.defaults, n) if DEF.get(n, 0) is None else DEF.get(n, 0)
    elif how == 1:
        setattr(cam.defaults, n, dv)      # a value is given: the default is not used ...
        compare(ctx, cam, model, kind, lens, orient)
        setattr(cam, n, None)             # ... until it is removed
        model[n] = dv
    else:
        setattr(cam, n, None)
        setattr(component(cam, n).defaults, n, dv)
        model[n] = dv
    compare(ctx, cam, model, kind, lens, orient)
    v = new_value(ctx, n, 8)
    setattr(cam, n, v)
    model[n] = v
    compare(ctx, cam, model, kind, lens, orient)


def h_shared(ctx, kind, what):
    """two cameras with a common component see every change of it"""
    ct = ctx.ct
    names, m = start(ctx, kind, "none", "thr")
    cam = build(ctx, kind, "none", "thr", m)
    m2 = dict(m)
    if what == "orientation":
        other = ct.Camera(projection(ctx, kind, {n: m[n] for n in INT if n in m and n.startswith(("f", "c"))}, image=(m["image_width_px"], m["image_height_px"])), cam.orientation)
        params = EXT
    else:
        other = ct.Camera(cam.projection, ct.SpatialOrientation(**{n: m[n] for n in EXT}))
        params = INT
    n = params[ctx.choice("n", len(params))]
    v = new_value(ctx, n, 1)
    setattr(cam, n, v)
    update(m, n, v)
    compare(ctx, cam, m, kind, "none", "thr")
    compare(ctx, other, m, kind, "none", "thr")
    v = new_value(ctx, n, 2)
    other.parameters.set_fit_parameters({n: v})
    update(m, n, v)
    compare(ctx, cam, m, kind, "none", "thr")


def instances(tier):
    out = []
    combos = [("rect", "none", "thr"), ("cyl", "none", "ypr"), ("equi", "none", "thr"), ("rect", "brown", "thr"), ("rect", "abc", "ypr")]
    for kind, lens, orient in combos:
        nm = "%s-%s-%s" % (kind, lens, orient)
        for r in ROUTES:
            out.append(dict(name="one-%s-%s" % (nm, r), fn=h_history, args=dict(kind=kind, lens=lens, orient=orient, routes=(r,)), weight=1))
        pairs = [("camera", "component"), ("fit-dict", "camera"), ("parameters", "fit-lists"), ("stats", "component-parameters"), ("component-fit", "stats"), ("camera", "fit-dict"),
                 ("fit-dict", "fit-lists"), ("component", "component-fit"), ("stats", "camera"), ("component-parameters", "parameters")]
        if tier == "thorough":
            pairs = [(a, b) for a in ROUTES for b in ROUTES]
        elif lens == "none" and kind != "rect":
            pairs = pairs[:4]
        for r in pairs:
            out.append(dict(name="two-%s-%s" % (nm, "+".join(r)), fn=h_history, args=dict(kind=kind, lens=lens, orient=orient, routes=r), weight=20, nreplay=2))
        if tier == "thorough":
            for r in (("camera", "fit-dict", "component"), ("stats", "camera", "fit-lists"), ("component-fit", "parameters", "camera")):
                out.append(dict(name="three-%s-%s" % (nm, "+".join(r)), fn=h_history, args=dict(kind=kind, lens=lens, orient=orient, routes=r), weight=100, nreplay=2,
                                opts=dict(max_paths=5000)))
        for form in ("dict", "lists", "views"):
            out.append(dict(name="multi-%s-%s" % (nm, form), fn=h_multi, args=dict(kind=kind, lens=lens, orient=orient, form=form)))
        out.append(dict(name="defaults-%s" % nm, fn=h_defaults, args=dict(kind=kind, lens=lens, orient=orient), weight=5))
    for kind in KINDS:
        for what in ("orientation", "projection"):
            out.append(dict(name="shared-%s-%s" % (kind, what), fn=h_shared, args=dict(kind=kind, what=what), weight=2))
    return out
