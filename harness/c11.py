"""C11: reading coordinates from text."""
import numpy as np
from .common import *
from .gpstext import build, numeral

META = dict(bounds="notations D M S, D M and D with every digit of every numeral symbolic (1 to 3 digits before, 0 to 5 after the point), every documented mark for minutes and seconds, blanks (none, one, two, narrow), comma or not, letter, sign or none, "
                   "pairs, single coordinates, tuples, lists, nested lists and heights; texts that are no coordinate",
            stubs=["texts with symbolic digits; regular expressions run on representatives and have to match in the same places for other digits (otherwise not encoded)"],
            assumptions=["a coordinate has a letter or a sign, not both; both coordinates of a pair have the same notation"])

MIN = ("'", "′", "´", "’")
SEC = ("''", '"', "´´", "″")
LETTERS = {"lat": (None, "N", "S", "-", "+"), "lon": (None, "E", "W", "-", "+"), "any": (None, "N", "S", "E", "W", "-", "+")}
BLANK = ("", " ", "  ", "\u202f")


def coordinate(ctx, name, notation, digits=(2, 2, 2, 3), letter=None, mmark="'", smark='"', blank=" ", before=None):
    """digits: of degrees, minutes and seconds, and after the point of the last one"""
    nd, nm, ns, nf = digits
    parts = []
    if letter in ("-", "+"):
        parts.append(letter)
    t, v = numeral(ctx, name + "d", nd, nf if notation == "d" else 0)
    parts += [t, "°", blank]
    if notation in ("dms", "dm"):
        t, m = numeral(ctx, name + "m", nm, nf if notation == "dm" else 0)
        v = v + m / 60 if not ctx.symbolic else v + m * ctx.const(1) / 60
        parts += [t, mmark, blank]
    if notation == "dms":
        t, s = numeral(ctx, name + "s", ns, nf)
        v = v + s / 3600
        parts += [t, smark, blank]
    if letter is not None and letter not in "+-":
        parts += [before if before is not None else "", letter]
    elif blank:
        parts.pop()
    if letter is not None and letter in "SW-":
        v = -v
    return parts, v


def pick(ctx, name, xs):
    return xs[ctx.choice(name, len(xs))]


def parsed(ctx, label, got, want):
    if got is None:
        ctx.prove(label + ": recognised", False)
        return
    ctx.eq(label, np.asarray(got, dtype=object) if ctx.symbolic else np.asarray(got, dtype=float), vec(ctx, want) if isinstance(want, (list, tuple)) else want)


def h_pair(ctx, notation, vary, marks=None):
    """one text with latitude and longitude"""
    lat, lon = {}, {}
    sep = " "
    if vary == "digits":
        for k, d in (("lat", lat), ("lon", lon)):
            nd, nf = pick(ctx, k + "nd", (1, 2, 3)), pick(ctx, k + "nf", (0, 1, 6) if notation == "d" else (0, 1, 5))
            d["digits"] = (nd, 2 if notation == "d" else pick(ctx, k + "nm", (1, 2)), pick(ctx, k + "ns", (1, 2)) if notation == "dms" else 2, nf)
        lat["letter"], lon["letter"] = ("S", "E") if notation != "d" else ("-", None)
    elif vary == "signs":
        lat["letter"], lon["letter"] = pick(ctx, "letter1", LETTERS["lat"]), pick(ctx, "letter2", LETTERS["lon"])
    elif vary == "blanks":
        lat["blank"], lon["blank"] = pick(ctx, "blank1", BLANK), pick(ctx, "blank2", BLANK)
        lat["letter"], lon["letter"] = "N", "W"
        sep = pick(ctx, "sep", (" ", ", ", ",", "  ", " ,  "))
    elif vary == "marks":
        for k, d in (("lat", lat), ("lon", lon)):
            d["mmark"] = pick(ctx, k + "mm", MIN if notation == "dms" else MIN + ("",))
            d["smark"] = pick(ctx, k + "sm", SEC) if notation == "dms" else ""
        lat["letter"], lon["letter"] = "S", "W"
        if notation == "dm":
            lat["before"], lon["before"] = pick(ctx, "before", ("", " ")), ""
    p1, v1 = coordinate(ctx, "lat", notation, **lat)
    p2, v2 = coordinate(ctx, "lon", notation, **lon)
    lead, trail = ("", "") if vary != "blanks" else pick(ctx, "ends", (("", ""), (" ", ""), ("", "  ")))
    text = build(ctx, [lead] + p1 + [sep] + p2 + [trail])
    parsed(ctx, "latitude and longitude of the text", ctx.ct.gpsFromString(text), [v1, v2])
    h = ctx.real("h", -100, 9000)
    parsed(ctx, "latitude, longitude and height", ctx.ct.gpsFromString(text, h), [v1, v2, h])
    parsed(ctx, "latitude, longitude and height", ctx.ct.gpsFromString(text, height=h), [v1, v2, h])


def h_single(ctx, notation, vary):
    d = {}
    if vary == "digits":
        d["digits"] = (pick(ctx, "nd", (1, 2, 3)), pick(ctx, "nm", (1, 2)) if notation != "d" else 2, pick(ctx, "ns", (1, 2)) if notation == "dms" else 2, pick(ctx, "nf", (0, 1, 5)))
        d["letter"] = pick(ctx, "letter", ("W", "-", None))
    else:
        d["letter"] = pick(ctx, "letter", LETTERS["any"])
        d["blank"] = pick(ctx, "blank", BLANK)
        if notation != "d":
            d["mmark"] = pick(ctx, "mm", MIN)
            d["smark"] = pick(ctx, "sm", SEC) if notation == "dms" else ""
    p, v = coordinate(ctx, "c", notation, **d)
    parsed(ctx, "the coordinate of the text", ctx.ct.gpsFromString(build(ctx, p)), v)


def h_lists(ctx, notation):
    g = ctx.ct.gpsFromString
    n = 3
    L = []
    for i in range(n):
        a, va = coordinate(ctx, "a%d" % i, notation, letter=("S", "N", "-")[i])
        b, vb = coordinate(ctx, "b%d" % i, notation, letter=("E", "-", "W")[i])
        L.append((build(ctx, a), build(ctx, b), build(ctx, a + [", "] + b), va, vb))
    h = [ctx.real("h%d" % i, -100, 9000) for i in range(n)]
    num = float if not ctx.symbolic else (lambda x: x)
    (a0, b0, t0, x0, y0), (a1, b1, t1, x1, y1), (a2, b2, t2, x2, y2) = L
    parsed(ctx, "tuple of two texts", g((a0, b0)), [x0, y0])
    parsed(ctx, "list of two texts", g([a1, b1]), [x1, y1])
    parsed(ctx, "two texts and a height", g([a0, b0], height=h[0]), [x0, y0, h[0]])
    parsed(ctx, "two texts and a height in a list", g([a0, b0, h[0]]), [x0, y0, h[0]])
    parsed(ctx, "a text and a height in a list", g([t0, h[0]]), [x0, y0, h[0]])
    parsed(ctx, "a text and a height in a tuple", g((t2, h[1])), [x2, y2, h[1]])
    parsed(ctx, "one text in a list", g([t0]), np.array([[x0, y0]], dtype=object if ctx.symbolic else float))
    parsed(ctx, "list of texts", g([t0, t1, t2]), np.array([[x0, y0], [x1, y1], [x2, y2]], dtype=object if ctx.symbolic else float))
    parsed(ctx, "list of texts and heights", g([[t0, h[0]], [t1, h[1]]]), np.array([[x0, y0, h[0]], [x1, y1, h[1]]], dtype=object if ctx.symbolic else float))
    parsed(ctx, "list of tuples of texts and heights", g([(t0, h[0]), (t1, h[1]), (t2, h[2])]), np.array([[x0, y0, h[0]], [x1, y1, h[1]], [x2, y2, h[2]]], dtype=object if ctx.symbolic else float))
    parsed(ctx, "list of lists of two texts", g([[a0, b0], [a1, b1]]), np.array([[x0, y0], [x1, y1]], dtype=object if ctx.symbolic else float))
    parsed(ctx, "list of lists of two texts and a height", g([[a0, b0, h[0]], [a1, b1, h[1]]]), np.array([[x0, y0, h[0]], [x1, y1, h[1]]], dtype=object if ctx.symbolic else float))
    parsed(ctx, "zero degrees can be negative", g(build(ctx, ["-0° "] + list(coordinate(ctx, "z", "dm")[0])[3:])), -coordinate_minutes(ctx))


def coordinate_minutes(ctx):
    p, v = coordinate(ctx, "z", "dm")
    d, w = numeral(ctx, "zd", 2, 0)
    return v - w


def h_nothing(ctx):
    """no degree sign, no coordinate"""
    a, _ = numeral(ctx, "a", 2, 3)
    b, _ = numeral(ctx, "b", 3, 0)
    for parts in ([""], ["hello"], [a], [a, " ", b], ["N"], ["lat ", a, "°"], ["°"], ["° ", a], [a, ", ", b], [b, "' ", a, '" N']):
        ctx.prove("text that is no coordinate gives no position", ctx.ct.gpsFromString(build(ctx, parts)) is None, repr(parts))


def h_camera(ctx, notation):
    """a camera's position from a text"""
    ct = ctx.ct
    p1, v1 = coordinate(ctx, "lat", notation, letter="S")
    p2, v2 = coordinate(ctx, "lon", notation, letter="E")
    text = build(ctx, p1 + [" "] + p2)
    cam = ct.Camera(ct.RectilinearProjection(focallength_px=1000, image=(640, 480)))
    e = ctx.real("elevation", 1, 1000)
    cam.elevation_m = e
    cam.setGPSpos(text)
    ctx.eq("the latitude of the camera", cam.gps_lat, v1)
    ctx.eq("the longitude of the camera", cam.gps_lon, v2)
    ctx.eq("the elevation is kept", cam.elevation_m, e)


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, opts=dict(max_paths=30000, feas_ms=0), nreplay=12))
    for n in ("dms", "dm", "d"):
        for v in ("digits", "signs", "blanks") + (("marks",) if n != "d" else ()):
            add("pair-%s-%s" % (n, v), h_pair, notation=n, vary=v)
        for v in ("digits", "marks"):
            add("single-%s-%s" % (n, v), h_single, notation=n, vary=v)
        add("lists-" + n, h_lists, notation=n)
        add("camera-" + n, h_camera, notation=n)
    add("nothing", h_nothing)
    return out
