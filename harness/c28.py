"""C28: camera groups are compositions of their cameras."""
import numpy as np
from .common import *
from .c07 import EXT, EXTY, INT, new_value, compare, build, update, lens_names, component
from .c19 import same

META = dict(bounds="groups of 2 and 3 cameras, each of projection, orientation and lens given once for all cameras, or as list, tuple or generator with one per camera (same type in one list); every parameter changed by the group's attribute, the group's "
                   "parameter set, fit call (dict), the camera's attribute or the component; all values symbolic; log-probabilities: up to two terms of the group and of each camera, any values, undefined terms",
            assumptions=["lists that are given have the same length", "a lens shared by cameras with different projections is a known finding (the lens belongs to the projection of the last camera)"])


def group(ctx, kind, lens, orient, share, N, form=list):
    """share: subset of p, o, l that all cameras have in common"""
    ct = ctx.ct
    names = {"p": [n for n in INT if n != "focallength_px"], "o": list(EXT if orient == "thr" else EXTY), "l": list(lens_names(lens))}
    models = []
    for i in range(N):
        m = {}
        for part, ns in names.items():
            for n in ns:
                m[n] = models[0][n] if i and part in share else new_value(ctx, n, 10 * i)
        models.append(m)

    def make(part, m):
        c = build(ctx, kind, lens, orient, m)
        return dict(p=c.projection, o=c.orientation, l=make_lens(ctx, lens, {n: m[n] for n in lens_names(lens)}))[part]
    args = []
    for part in "pol":
        if part in share:
            args.append(make(part, models[0]))
        else:
            args.append(form([make(part, m) for m in models]))
    if lens == "none":
        args = args[:2]
    return ct.CameraGroup(*args), models, names


def part_of(names, n):
    for p, ns in names.items():
        if n in ns:
            return p


def check_all(ctx, G, models, names, share, kind, lens, orient):
    N = len(models)
    ctx.prove("number of cameras", len(G) == N and len(list(G)) == N and len(G.cameras) == N)
    for part, ns in names.items():
        for n in ns:
            for i in range(N):
                name = n if part in share else "C%d_%s" % (i, n)
                ctx.prove("the group has the parameter", name in G.parameters.parameters, name)
                ctx.eq("the group shows the parameter of the camera", getattr(G, name), models[i][n])
                ctx.eq("the group's parameter set shows the parameter of the camera", getattr(G.parameters, name), models[i][n])
    for i, cam in enumerate(G):
        ctx.prove("cameras in order", cam is G[i])
        compare(ctx, cam, models[i], kind, lens, orient)


def h_change(ctx, kind, lens, orient, share, N, route, form=list):
    G, models, names = group(ctx, kind, lens, orient, share, N, form)
    if route is None:
        return check_all(ctx, G, models, names, share, kind, lens, orient)
    alln = [n for ns in names.values() for n in ns]
    n = alln[ctx.choice("n", len(alln))]
    i = ctx.choice("i", N)
    v = new_value(ctx, n, 99)
    shared = part_of(names, n) in share
    name = n if shared else "C%d_%s" % (i, n)
    if route == "attribute":
        setattr(G, name, v)
    elif route == "parameters":
        setattr(G.parameters, name, v)
    elif route == "fit":
        G.parameters.set_fit_parameters({name: v})
    elif route == "camera":
        setattr(G[i], n, v)
    elif route == "component":
        setattr(component(G[i], n), n, v)
    for j in range(N):
        if shared or j == i:
            update(models[j], n, v)
    check_all(ctx, G, models, names, share, kind, lens, orient)


def h_shared_lens(ctx, lens):
    """known finding: see known_findings.jsonl"""
    G, models, names = group(ctx, "rect", lens, "thr", "l", 2)
    m = models[0]
    fresh = build(ctx, "rect", lens, "thr", m)
    pix = vec(ctx, [m["center_x_px"] + m["focallength_x_px"] * ctx.real("qx", 0.1, 1), m["center_y_px"] + m["focallength_y_px"] * ctx.real("qy", 0.1, 1)])
    ctx.eq("a lens shared by cameras with different projections works for each camera", G[0].lens.distortedFromImage(pix), fresh.lens.distortedFromImage(pix))


def h_images(ctx, kind, share, N):
    G, models, names = group(ctx, kind, "none", "thr", share, N)
    # the point in front of the first camera
    m = models[0]
    c = ctx.vec("c", 3, -100, 100)
    pt = np.dot(R_doc(ctx, m["tilt_deg"], m["roll_deg"], m["heading_deg"]).T, vec(ctx, c)) + tvec(ctx, m)
    got = G.imagesFromSpace(pt)
    ctx.prove("one image per camera", len(got) == N)
    for i in range(N):
        alone = build(ctx, kind, "none", "thr", models[i])
        same(ctx, "the image of each camera", got[i], alone.imageFromSpace(pt))


def h_baseline(ctx, N):
    G, models, names = group(ctx, "rect", "none", "thr", "p", N)
    b = G.getBaseline()
    a, c = models[0], models[1]
    ctx.ge0("baseline is not negative", b)
    ctx.eq("baseline: horizontal distance of the first two cameras (squared)", b * b, (a["pos_x_m"] - c["pos_x_m"]) ** 2 + (a["pos_y_m"] - c["pos_y_m"]) ** 2)


def h_logprob(ctx, N, ng, nc, undefined=None, clear=None):
    G, models, names = group(ctx, "rect", "none", "thr", "p", N)
    s = 0
    k = 0
    cleared = 0
    for owner, obj, n in [("g", G, ng)] + [(i, G[i], nc) for i in range(N)]:
        for j in range(n):
            v = ctx.real("t%s_%d" % (owner, j), -1000, 10)
            if undefined == (owner, j):
                v = np.nan
                k = 1
            obj.addCustomoLogProbability(lambda v=v: v)
            if clear == owner:
                cleared = cleared + v
            s = s + v
    for owner, obj, n in [("g", G, ng)] + [(i, G[i], nc) for i in range(N)]:
        if clear == owner:
            obj.clearLogProbability()
    s = s - cleared
    p = G.getLogProbability()
    if k:
        ctx.prove("an undefined term has zero probability", not isinstance(p, (list, tuple)) and float(p) == -np.inf, str(p))
    else:
        ctx.eq("sum of all terms of the group and its cameras", p, s)
        for i in range(N):
            si = 0
            for j in range(nc):
                si = si + (0 if clear == i else ctx.real("t%s_%d" % (i, j), -1000, 10))
            ctx.eq("each camera has its own terms", G[i].getLogProbability(), si)


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, weight=20 if fn is h_change and k["route"] else 2, nreplay=2, opts=dict(feas_ms=0) if fn is h_images else {}))
    combos = [("rect", "none", "thr"), ("cyl", "none", "ypr"), ("equi", "none", "thr"), ("rect", "brown", "thr"), ("rect", "abc", "ypr")]
    routes = ("attribute", "parameters", "fit", "camera", "component")
    for kind, lens, orient in combos:
        nm = "%s-%s-%s" % (kind, lens, orient)
        shares = ["", "p", "o"] if lens == "none" else ["", "p", "o", "pl"]
        for share in shares:
            for N in (2, 3) if tier == "quick" else (2, 3, 4):
                for form in (list, tuple, iter):
                    add("new-%s-%s-%d-%s" % (nm, share, N, form.__name__), h_change, kind=kind, lens=lens, orient=orient, share=share, N=N, route=None, form=form)
            for r in routes:
                if tier == "quick" and kind != "rect" and r in ("parameters", "component"):
                    continue
                add("change-%s-%s-2-%s" % (nm, share, r), h_change, kind=kind, lens=lens, orient=orient, share=share, N=2, route=r)
                if tier != "quick" or (lens == "none" and kind == "rect" and r in ("attribute", "fit")):
                    add("change-%s-%s-3-%s" % (nm, share, r), h_change, kind=kind, lens=lens, orient=orient, share=share, N=3, route=r)
    for kind in KINDS:
        for share in ("", "p", "o"):
            add("images-%s-%s" % (kind, share), h_images, kind=kind, share=share, N=2)
    add("images-rect-p-3", h_images, kind="rect", share="p", N=3)
    for lens in ("brown", "abc"):
        add("shared-lens-%s" % lens, h_shared_lens, lens=lens)
    for N in (2, 3):
        add("baseline-%d" % N, h_baseline, N=N)
    for N in (2, 3):
        for ng in (0, 1, 2):
            for nc in (0, 1, 2):
                add("logprob-%d-%d-%d" % (N, ng, nc), h_logprob, N=N, ng=ng, nc=nc)
    for u in (("g", 0), (0, 0), (1, 1)):
        add("logprob-undefined-%s-%d" % u, h_logprob, N=2, ng=2, nc=2, undefined=u)
    for u in ("g", 0, 1):
        add("logprob-clear-%s" % u, h_logprob, N=2, ng=2, nc=2, clear=u)
    return out
