"""C23: distributions, samples, means, traces and fits of parameters."""
import contextlib
import sys
import numpy as np
from .common import *
from .rand import draws
from .c07 import build, start, compare, new_value, component, update, all_params, EXT, EXTY, INT, DEF

META = dict(bounds="up to three parameters of projection, orientation and lens with a distribution, all means, deviations, other values and random draws symbolic; histories of up to four steps (define, sample, mean, set, fit); "
                   "traces of 1 to 3 rows with up to three columns, every row selection and every order of the probabilities; fits of up to three parameters with an optimizer that evaluates three arbitrary points and returns an arbitrary one, "
                   "up to two start values of probability zero; all parameters for the selection of fit parameters",
            stubs=["np.random and scipy distributions draw from symbolic variables", "scipy.optimize.minimize is replaced by an arbitrary optimizer (evaluates arbitrary points, returns an arbitrary point)"],
            assumptions=["a trace has the index 0..n-1", "that the found optimum is good is the optimizer's matter and not checked"])


def same(ctx, a, b):
    """the same value on this path (decided without a new obligation)"""
    if not ctx.symbolic:
        return bool(abs(a - b) <= 1e-9 * (1 + abs(b)))
    d = ctx.S.lift(a - b)
    return not isinstance(d, ctx.S.Sym) or not d.t


def stats_of(ctx, names, i=0):
    lens = ("k1", "k2", "k3", "a", "b", "c")
    return {n: (mean_value(ctx, n, i + 1), ctx.real("std%d_%s" % (i, n), 0.00001, 0.0001 if n in lens else 0.5)) for n in names}


def mean_value(ctx, n, i):
    """far enough from the ends of the ranges that samples are inside too"""
    if n in ("heading_deg", "yaw_deg"):
        return ctx.real("v%d_%s" % (i, n), -300, 300)
    if n.startswith("focal"):
        return ctx.real("v%d_%s" % (i, n), 20, 9000)
    return new_value(ctx, n, i)


def check_sample(ctx, cam, m, D, src, first, kind, lens, orient):
    """every parameter with a distribution has mean + std * (its own draw)"""
    draws_ = src.zs[first:]
    ctx.prove("one draw per distribution", len(draws_) == len(D), "%d draws" % len(draws_))
    left = list(draws_)
    now = dict(m)
    order = [n for n in cam.parameters.parameters if n in D] + [n for n in D if n not in cam.parameters.parameters]
    for k, n in enumerate(order):
        got = getattr(cam, n)
        mean, std = D[n]
        hit = [z for z in left if same(ctx, got, mean + std * z)]
        z = hit[0] if hit else left[0] if left else 0
        left = [y for y in left if y is not z]
        ctx.eq("the sampled value is mean + std * its own draw", got, mean + std * z)
        update(now, n, mean + std * z)
    compare(ctx, cam, now, kind, lens, orient)
    return now


def h_sample(ctx, names, kind="rect", lens="none", orient="thr", given="set", steps=("sample",)):
    _, m = start(ctx, kind, lens, orient)
    D = stats_of(ctx, names)
    with draws(ctx) as src:
        if given == "set":
            cam = build(ctx, kind, lens, orient, m)
            for n in names:
                setattr(cam, n, D[n])
        elif given == "component":
            cam = build(ctx, kind, lens, orient, m)
            for n in names:
                setattr(component(cam, n), n, D[n])
        for n in names:
            update(m, n, D[n][0])
        mean = dict(m)
        for k, s in enumerate(steps):
            first = len(src.zs)
            if s == "sample":
                r = cam.sample()
                m = check_sample(ctx, cam, m, D, src, first, kind, lens, orient)
            elif s == "mean":
                cam.set_to_mean()
                ctx.prove("no draw for the mean", len(src.zs) == first)
                for n in D:
                    update(m, n, D[n][0])
                compare(ctx, cam, m, kind, lens, orient)
            elif s == "define":
                compare(ctx, cam, m, kind, lens, orient)
            elif s.startswith("number:"):
                n = s[7:]
                v = ctx.real("n%d" % k, 20, 60)
                setattr(cam, n, v)
                D.pop(n, None)
                update(m, n, v)
                compare(ctx, cam, m, kind, lens, orient)
            elif s.startswith("again:"):
                n = s[6:]
                D[n] = stats_of(ctx, [n], 5)[n]
                setattr(cam, n, D[n])
                update(m, n, D[n][0])
                compare(ctx, cam, m, kind, lens, orient)


def frame(ctx, cols, rows):
    import pandas as pd
    data = [[row[c] for c in cols] for row in rows]
    return pd.DataFrame(data, columns=list(cols), dtype=object if ctx.symbolic else float)


def make_trace(ctx, cam, names, extra, rows):
    R = []
    for i in range(rows):
        row = {n: new_value(ctx, n, 10 + i) for n in names}
        for n in extra:
            row[n] = ctx.real("x%d_%s" % (i, n), -5, 5)
        row["probability"] = ctx.real("p%d" % i, -50, 0)
        R.append(row)
    return R, frame(ctx, list(names) + list(extra) + ["probability"], R)


def h_trace(ctx, names, extra=(), rows=2, op="sample", kind="rect", lens="none", orient="thr", dist=()):
    _, m = start(ctx, kind, lens, orient)
    cam = build(ctx, kind, lens, orient, m)
    D = stats_of(ctx, dist)
    for n in dist:
        setattr(cam, n, D[n])
        update(m, n, D[n][0])
    R, t = make_trace(ctx, cam, names, extra, rows)
    cam.set_trace(t)
    ctx.prove("the trace is kept", cam.parameters.trace is t)
    compare(ctx, cam, m, kind, lens, orient)
    with draws(ctx) as src, quiet():
        if op == "sample":
            for rep in range(2):
                p = cam.sample()
                ctx.prove("one row is drawn from all rows", len(src.ks) == rep + 1 and src.ks[-1][1] == rows and not src.zs, "%s" % (src.ks,))
                row = R[src.ks[-1][0]]
                ctx.eq("the probability of the row is returned", p, row["probability"])
                now = dict(m)
                for n in names:
                    update(now, n, row[n])
                compare(ctx, cam, now, kind, lens, orient)
        else:
            cam.set_to_mean()
            ctx.prove("no draw for the most probable row", not src.ks and not src.zs)
            best = 0
            for i in range(1, rows):
                if R[i]["probability"] > R[best]["probability"]:
                    best = i
            now = dict(m)
            for n in names:
                update(now, n, R[best][n])
            compare(ctx, cam, now, kind, lens, orient)
    ctx.prove("the trace is not changed", cam.parameters.trace is t and list(t.columns) == list(names) + list(extra) + ["probability"] and len(t) == rows)


@contextlib.contextmanager
def quiet():
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def optimizer(fake):
    import scipy.optimize as so
    orig = so.minimize
    saved = []
    mods = [so] + [mod for n, mod in list(sys.modules.items()) if n.split(".")[0] == "cameratransform" and mod is not None]
    for mod in mods:
        for k, v in list(vars(mod).items()):
            if v is orig:
                saved.append((mod, k))
                setattr(mod, k, fake)
    try:
        yield
    finally:
        for mod, k in saved:
            setattr(mod, k, orig)


def bound_list(b, n):
    """bounds in any form scipy accepts: [(low, high)] with None for unbounded"""
    if b is None:
        return [(None, None)] * n
    if hasattr(b, "lb"):
        lb, ub = [np.broadcast_to(np.asarray(x, dtype=object), (n,)) for x in (b.lb, b.ub)]
        b = list(zip(lb, ub))
    fix = lambda x: None if x is None or isinstance(x, float) and not np.isfinite(x) else x
    return [(fix(lo), fix(hi)) for lo, hi in b]


class Result(dict):
    __getattr__ = dict.__getitem__


def h_fit(ctx, names, forms, kind="rect", lens="none", orient="thr", start_inf=0, iterations=None, evaluations=3, orders=False):
    ct = ctx.ct
    _, m = start(ctx, kind, lens, orient)
    cam = build(ctx, kind, lens, orient, m)
    P, S, B = [], [], []
    terms = []
    calls = []

    def prob():
        i = len(calls)
        pos = {n: getattr(cam, n) for n in names}
        v = -np.inf if i < start_inf else ctx.real("L%d" % i, -50, 0)
        calls.append((pos, v))
        return v
    other = [0]

    def second():
        # a second term: depends on the parameters alone
        other[0] += 1
        return -getattr(cam, names[0]) ** 2

    with draws(ctx) as src:
        for i, (n, f) in enumerate(zip(names, forms)):
            v = new_value(ctx, n, 20)
            k = {}
            if f == "range":
                lo, hi = v - ctx.real("dl%d" % i, 0.01, 5), v + ctx.real("dh%d" % i, 0.01, 5)
                k, b = dict(lower=lo, upper=hi), (lo, hi)
            elif f == "norm":
                k, b = dict(mean=v, std=ctx.real("sd%d" % i, 0.01, 5)), (None, None)
            else:
                class Dist:
                    def rvs(self, size=None, v=v):
                        return np.array(v + src.u(), dtype=object if ctx.symbolic else float)
                k, b = dict(distribution=Dist()), (None, None)
            P.append(ct.FitParameter(n, value=v, **k))
            S.append(v)
            B.append(b)
        cam.addCustomoLogProbability(prob)
        cam.addCustomoLogProbability(second)
        seen = {}

        def fake(fun, x0, args=(), method=None, jac=None, bounds=None, options=None, **kw):
            seen.update(n=seen.get("n", 0) + 1, x0=list(np.ravel(np.asarray(x0, dtype=object))), bounds=bound_list(bounds, len(names)), options=options, method=method, kw=kw,
                        before=len(calls))
            if jac:
                raise NotImplementedError("the optimizer is asked to use a gradient")
            for e in range(evaluations):
                x = vec(ctx, [new_value(ctx, n, 30 + e) for n in names])
                at = len(calls)
                c = fun(x, *args)
                ctx.prove("one evaluation of the probability", len(calls) == at + 1)
                pos, v = calls[-1]
                for i, n in enumerate(names):
                    ctx.eq("the parameters of the evaluation are in effect", pos[n], x[i])
                ctx.eq("the cost is minus the log-probability", c, -(v - x[0] ** 2))
            seen["x"] = vec(ctx, [new_value(ctx, n, 40) for n in names])
            seen["res"] = Result(x=seen["x"], fun=c, success=True)
            return seen["res"]
        kw = {} if iterations is None else dict(iterations=iterations)
        with optimizer(fake), quiet():
            res = cam.fit(P, **kw)
    ctx.prove("the optimizer is called once", seen.get("n") == 1)
    ctx.prove("the result of the optimizer is returned", res is seen["res"])
    if iterations is not None:
        ctx.prove("the number of iterations is passed on", (seen["options"] or {}).get("maxiter") == iterations, str(seen["options"]))
    for i, n in enumerate(names):
        ctx.eq("the start value is tried first", calls[0][0][n], S[i])
        if start_inf == 0:
            ctx.eq("the optimizer starts at the value of the parameter", seen["x0"][i], S[i])
        else:
            ctx.eq("the optimizer starts at the first possible random value", seen["x0"][i], calls[start_inf][0][n])
            if B[i][0] is not None:
                ctx.ge0("a random start is inside the range", seen["x0"][i] - B[i][0])
                ctx.ge0("a random start is inside the range", B[i][1] - seen["x0"][i])
        for a in (0, 1):
            if B[i][a] is None:
                ctx.prove("an unbounded parameter has no bounds", seen["bounds"][i][a] is None, str(seen["bounds"][i]))
            else:
                ctx.prove("a bounded parameter has bounds", seen["bounds"][i][a] is not None)
                ctx.eq("the bounds are the range of the parameter", seen["bounds"][i][a], B[i][a])
    now = dict(m)
    for i, n in enumerate(names):
        update(now, n, seen["x"][i])
    compare(ctx, cam, now, kind, lens, orient)


def h_never(ctx):
    """no possible start: an error instead of a fit"""
    ct = ctx.ct
    _, m = start(ctx, "rect", "none", "thr")
    cam = build(ctx, "rect", "none", "thr", m)
    cam.addCustomoLogProbability(lambda: -np.inf)
    called = []
    with draws(ctx, u=lambda i: 0.25) as src:
        p = ct.FitParameter("tilt_deg", lower=0.0, upper=80.0, value=20.0)
        with optimizer(lambda *a, **k: called.append(1)), quiet():
            ctx.raises("no start of positive probability", ValueError, lambda: cam.fit([p]))
            ctx.raises("no start of positive probability", ValueError, lambda: cam.metropolis([p], iterations=3, disable_bar=True, print_trace=False))
    ctx.prove("no fit without a start", not called)


def h_fitparam(ctx):
    """FitParameter: value, range, distribution and step as given"""
    ct = ctx.ct
    lo, w, v, st = ctx.real("lo", -50, 50), ctx.real("w", 0.1, 50), ctx.real("v", -50, 50), ctx.real("st", 0.01, 5)
    mu, sd = ctx.real("mu", -50, 50), ctx.real("sd", 0.1, 50)
    with draws(ctx) as src:
        p = ct.FitParameter("elevation_m", lower=lo, upper=lo + w, value=v, step=st)
        ctx.eq("value", p.value[()], v)
        ctx.eq("lower end", p.parents.get("lower"), lo)
        ctx.eq("upper end", p.parents.get("upper"), lo + w)
        ctx.eq("step", p.step, st)
        ctx.prove("name", str(p) == "elevation_m" and p.__name__ == "elevation_m")
        r = p.random()[()]
        ctx.ge0("random values are inside the range", r - lo)
        ctx.ge0("random values are inside the range", lo + w - r)
        ctx.eq("drawing does not change the value", p.value[()], v)
        q = ct.FitParameter("tilt_deg", mean=mu, std=sd, value=v)
        ctx.prove("a normal distribution has no range", q.parents.get("lower") is None and q.parents.get("upper") is None)
        r = q.random()[()]
        ctx.prove("one normal draw", len(src.zs) == 1)
        ctx.eq("random values follow mean and std", r, mu + sd * src.zs[0])
        ctx.eq("default step", q.step, 1)
        q.set_value(r)
        ctx.eq("the value is set", q.value[()], r)

        class Dist:
            def rvs(self):
                return np.array(v, dtype=object if ctx.symbolic else float)
        c = ct.FitParameter("roll_deg", distribution=Dist(), value=mu)
        ctx.eq("a custom distribution is used", c.random()[()], v)
        ctx.prove("a custom distribution has no range", c.parents.get("lower") is None and c.parents.get("upper") is None)
    for k in (dict(), dict(lower=lo), dict(upper=lo), dict(mean=mu), dict(std=sd), dict(lower=lo, std=sd)):
        ctx.raises("an incomplete distribution is refused", ValueError, lambda: ct.FitParameter("tilt_deg", value=v, **k))


GROUP = dict([(n, "TYPE_INTRINSIC") for n in INT + ("sensor_height_mm", "sensor_width_mm")] + [(n, "TYPE_DISTORTION") for n in ("k1", "k2", "k3", "a", "b", "c")] +
             [(n, "TYPE_EXTRINSIC1") for n in ("elevation_m", "tilt_deg", "roll_deg", "yaw_deg")] + [(n, "TYPE_EXTRINSIC2") for n in ("heading_deg", "pos_x_m", "pos_y_m", "pitch_deg")] +
             [(n, "TYPE_GPS") for n in ("gps_lat", "gps_lon")])


def h_selection(ctx, lens, orient):
    """which parameters are still to be fitted: those the user has not set"""
    ct = ctx.ct
    from cameratransform import parameter_set as ps
    f = ctx.real("f", 100, 1000)
    proj = ct.RectilinearProjection(focallength_px=f, image_width_px=60, image_height_px=120)
    o = ct.SpatialOrientation() if orient == "thr" else ct.SpatialOrientationYawPitchRoll()
    cam = ct.Camera(proj, o, make_lens(ctx, lens, {}) if lens == "none" else (ct.BrownLensDistortion() if lens == "brown" else ct.ABCDistortion()))
    free = set(n for n in cam.parameters.parameters if GROUP[n] in ("TYPE_EXTRINSIC1", "TYPE_EXTRINSIC2", "TYPE_DISTORTION"))
    names = sorted(free)

    def check(tag):
        got = cam.parameters.get_fit_parameters()
        ctx.prove(tag + ": parameters not set by the user are fit parameters", set(got) >= free and len(got) == len(set(got)), "%s" % sorted(free - set(got)))
        bad = set(n for n in names if n not in free) & set(got)
        ctx.prove(tag + ": parameters set by the user are not", not bad, "%s" % bad)
        for t in ("TYPE_INTRINSIC", "TYPE_DISTORTION", "TYPE_EXTRINSIC1", "TYPE_EXTRINSIC2", "TYPE_GPS", "TYPE_EXTRINSIC"):
            sub = cam.parameters.get_fit_parameters(getattr(ps, t))
            exp = [n for n in got if GROUP[n].startswith(t)]
            ctx.prove(tag + ": the parameters of the type", sorted(sub) == sorted(exp), "%s %s" % (sub, exp))
    check("new camera")
    n = names[ctx.choice("which", len(names))]
    v = new_value(ctx, n, 0)
    setattr(cam, n, v)
    free.discard(n)
    check("set")
    i = ctx.choice("how", 3)
    if i == 0:
        setattr(cam, n, None)
        free.add(n)
    elif i == 1:
        cam.parameters.set_fit_parameters({n: v})
        free.add(n)
    else:
        k = names[(names.index(n) + 1) % len(names)]
        setattr(component(cam, k), k, new_value(ctx, k, 1))
        free.discard(k)
    check("changed")
    D = [cam.parameters.parameters[k].default for k in names]
    ctx.prove("defaults in the order asked for", list(cam.parameters.get_parameter_defaults(names)) == D)
    ctx.prove("ranges in the order asked for", list(cam.parameters.get_parameter_ranges(names)) == [cam.parameters.parameters[k].range for k in names])


def h_wrap(ctx, angle, orient):
    """angles beyond 360 degrees are stored modulo 360 and keep their distribution"""
    _, m = start(ctx, "rect", "none", orient)
    cam = build(ctx, "rect", "none", orient, m)
    mean, std = ctx.real("mean", 340, 380), ctx.real("std", 0.1, 10)

    def wrapped(v):
        return v - 360 if v > 360 else v
    with draws(ctx) as src:
        setattr(cam, angle, (mean, std))
        ctx.eq("the mean is in effect", getattr(cam, angle), wrapped(mean))
        for i in range(2):
            cam.sample()
            ctx.prove("one draw per sample", len(src.zs) == i + 1)
            v = wrapped(mean + std * src.zs[i])
            ctx.eq("the sampled angle", getattr(cam, angle), v)
            ctx.eq("the camera follows", cam.orientation.R, build(ctx, "rect", "none", orient, dict(m, **{angle: v})).orientation.R)
        cam.set_to_mean()
        ctx.eq("the mean is restored", getattr(cam, angle), wrapped(mean))


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, opts=dict(max_paths=20000, feas_ms=0), nreplay=3))
    sets = [("elevation_m",), ("tilt_deg", "heading_deg"), ("pos_x_m", "roll_deg", "pos_y_m"), ("focallength_x_px", "center_x_px"), ("focallength_y_px", "center_y_px"),
            ("focallength_px",), ("elevation_m", "focallength_px")]
    for names in sets:
        add("sample-" + "+".join(names), h_sample, names=names, steps=("define", "sample", "sample", "mean"))
    add("sample-component", h_sample, names=("tilt_deg", "center_x_px"), given="component", steps=("sample", "mean", "sample"))
    add("sample-ypr", h_sample, names=("yaw_deg", "pitch_deg"), orient="ypr", steps=("sample", "mean"))
    add("sample-number", h_sample, names=("tilt_deg", "pos_x_m"), steps=("sample", "number:tilt_deg", "sample", "mean"))
    add("sample-number-all", h_sample, names=("heading_deg",), steps=("number:heading_deg", "sample", "mean"))
    add("sample-again", h_sample, names=("heading_deg",), steps=("sample", "again:heading_deg", "sample", "mean"))
    add("sample-other", h_sample, names=("heading_deg",), steps=("number:tilt_deg", "sample", "number:pos_x_m", "mean"))
    add("sample-wrap-heading", h_wrap, angle="heading_deg", orient="thr")
    add("sample-wrap-pitch", h_wrap, angle="pitch_deg", orient="ypr")
    add("sample-brown", h_sample, names=("k1", "k2"), lens="brown", steps=("sample", "mean"))
    add("sample-abc", h_sample, names=("a", "elevation_m"), lens="abc", steps=("sample", "mean"))
    add("sample-none", h_sample, names=(), steps=("sample", "mean"))
    if tier != "quick":
        for kind in ("cyl", "equi"):
            for lens in ("none", "brown", "abc"):
                for n in all_params(lens, "thr"):
                    if n not in ("image_width_px", "image_height_px"):
                        add("sample-%s-%s-%s" % (kind, lens, n), h_sample, names=(n,), kind=kind, lens=lens, steps=("define", "sample", "mean", "sample"))
    for op in ("sample", "mean"):
        for names, extra, rows in ((("elevation_m",), (), 2), (("tilt_deg", "heading_deg"), (), 3), (("pos_x_m", "focallength_x_px"), ("sigma",), 2), (("roll_deg",), (), 1), (("focallength_px",), (), 2)):
            add("trace-%s-%s-%d" % (op, "+".join(names + extra), rows), h_trace, names=names, extra=extra, rows=rows, op=op)
        add("trace-%s-brown" % op, h_trace, names=("k1", "tilt_deg"), lens="brown", op=op)
        add("trace-%s-dist" % op, h_trace, names=("tilt_deg",), dist=("pos_x_m", "tilt_deg"), op=op)
    add("fit-1", h_fit, names=("elevation_m",), forms=("range",))
    add("fit-3", h_fit, names=("tilt_deg", "heading_deg", "pos_y_m"), forms=("range", "norm", "custom"))
    add("fit-2-iterations", h_fit, names=("roll_deg", "center_x_px"), forms=("norm", "range"), iterations=17)
    add("fit-focal", h_fit, names=("focallength_px",), forms=("range",))
    add("fit-brown", h_fit, names=("k1", "tilt_deg"), forms=("range", "range"), lens="brown", evaluations=2)
    add("fit-restart-1", h_fit, names=("elevation_m", "tilt_deg"), forms=("range", "range"), start_inf=1)
    add("fit-restart-2", h_fit, names=("elevation_m", "tilt_deg", "pos_x_m"), forms=("range", "norm", "custom"), start_inf=2)
    add("fit-impossible", h_never)
    add("fitparameter", h_fitparam)
    for lens in ("none", "brown", "abc"):
        for orient in ("thr", "ypr"):
            add("selection-%s-%s" % (lens, orient), h_selection, lens=lens, orient=orient)
    return out
