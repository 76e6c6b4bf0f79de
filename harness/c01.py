"""C01: the camera pose is the documented rigid motion."""
import numpy as np
from .common import R_doc, pose, tvec, vec, dt, norm

META = dict(bounds="position, elevation in +-1000 m (elevation up to 10 km), tilt and roll in [-360,360] deg, heading/pitch in [-1000,1000] deg; "
                   "points in +-1000 m with array shapes (3,), (1,3), (2,3), (3,3), (2,2,3), given as array or nested list")


def pts(ctx, shape, form):
    a = ctx.arr("p", shape, -1000, 1000, prefer=(-30, 30))
    if form == "list":
        return a.tolist(), a
    return a.copy(), a


def mk(ctx, cls):
    P = pose(ctx, wide=True)
    if cls == "thr":
        return ctx.ct.SpatialOrientation(**P), P
    # yaw-pitch-roll: tilt = 90 + pitch, roll = -roll, heading = yaw
    q = dict(elevation_m=P["elevation_m"], pos_x_m=P["pos_x_m"], pos_y_m=P["pos_y_m"], roll_deg=-P["roll_deg"],
             yaw_deg=ctx.deg("yaw", -360, 360), pitch_deg=ctx.deg("pitch", -1000, 1000))
    P["tilt_deg"] = 90 + q["pitch_deg"]
    P["heading_deg"] = q["yaw_deg"]
    return ctx.ct.SpatialOrientationYawPitchRoll(**q), P


def h_forward(ctx, shape, form, cls="thr"):
    o, P = mk(ctx, cls)
    arg, a = pts(ctx, shape, form)
    R = R_doc(ctx, P["tilt_deg"], P["roll_deg"], P["heading_deg"])
    t = tvec(ctx, P)
    got = o.cameraFromSpace(arg)
    exp, exp2, expd = (np.empty(shape, dtype=dt(ctx)) for _ in range(3))
    for i in np.ndindex(*shape[:-1]):
        exp[i] = np.dot(R, a[i] - t)
        expd[i] = np.dot(R.T, a[i])
        exp2[i] = expd[i] + t
    ctx.eq("camera = R (space - t)", got, exp)
    ctx.eq("space = R^-1 camera + t", o.spaceFromCamera(arg), exp2)
    ctx.eq("directions are only rotated", o.spaceFromCamera(arg, direction=True), expd)
    ctx.eq("position stays as given", [o.pos_x_m, o.pos_y_m, o.elevation_m], list(t))


def h_inverse(ctx, cls="thr"):
    o, P = mk(ctx, cls)
    a = ctx.arr("p", (2, 3), -1000, 1000)
    ctx.eq("space->camera->space", o.spaceFromCamera(o.cameraFromSpace(a)), a)
    ctx.eq("camera->space->camera", o.cameraFromSpace(o.spaceFromCamera(a)), a)
    ctx.eq("the camera position is the camera origin", o.cameraFromSpace([P["pos_x_m"], P["pos_y_m"], P["elevation_m"]]), np.zeros(3))
    c = o.cameraFromSpace(a)
    ctx.eq("distances are preserved", norm(ctx, c[0] - c[1]), norm(ctx, a[0] - a[1]))


def h_axes(ctx):
    """tilt 0 looks straight down, tilt 90 to the horizon; heading is clockwise from north (+y); positive roll turns clockwise"""
    h = ctx.deg("heading", -360, 360)
    e = ctx.real("ele", 0, 1000)
    SO = ctx.ct.SpatialOrientation
    fwd = [0, 0, -1]
    ctx.eq("tilt 0 looks down", SO(elevation_m=e, tilt_deg=0, roll_deg=0, heading_deg=h).spaceFromCamera(fwd, direction=True), np.array([0, 0, -1.0]))
    d = SO(elevation_m=e, tilt_deg=90, roll_deg=0, heading_deg=h).spaceFromCamera(fwd, direction=True)
    ctx.eq("tilt 90 looks to the compass direction heading", d, vec(ctx, [ctx.sind(h), ctx.cosd(h), 0]))
    t = ctx.deg("tilt", 0, 180)
    r = ctx.deg("roll", -180, 180)
    d = SO(elevation_m=e, tilt_deg=t, roll_deg=r, heading_deg=h).spaceFromCamera(fwd, direction=True)
    ctx.eq("viewing direction", d, vec(ctx, [ctx.sind(t) * ctx.sind(h), ctx.sind(t) * ctx.cosd(h), -ctx.cosd(t)]))
    o = SO()
    ctx.eq("default pose", o.spaceFromCamera([0, 0, 0]), np.array([0, 0, 30.0]))
    ctx.eq("default angles", [o.tilt_deg, o.roll_deg, o.heading_deg], [85, 0, 0])


def instances(tier):
    out = []
    for cls in ("thr", "ypr"):
        for shape in ((3,), (1, 3), (2, 3), (3, 3), (2, 2, 3)):
            for form in ("array", "list"):
                out.append(dict(name="forward-%s-%s-%s" % (cls, "x".join(map(str, shape)), form), fn=h_forward, args=dict(shape=shape, form=form, cls=cls)))
        out.append(dict(name="inverse-%s" % cls, fn=h_inverse, args=dict(cls=cls)))
    out.append(dict(name="axes", fn=h_axes))
    return out
