"""C10: formatted coordinates read back as the same position."""
import numpy as np
from .common import *
from .gpstext import numbers, plain

META = dict(bounds="every latitude in [-90, 90] and longitude in [-180, 180]; default format and 15 other formats with degrees, minutes and seconds (D M S, D M or D; widths, 0 to 6 decimals, zero padding), with letter or sign; "
                   "read back as pair of texts, as one text with a blank or comma, and as single coordinates",
            stubs=["texts with symbolic digits: %d prints the integer part, %.nf a number with n decimals at most half a unit away (ties of the rounding are left open); number of digits decided by case distinction"],
            assumptions=["only the last number of a format has decimals (as documented)"])

FORMATS = {
    "default": None,
    "dms": "%2d° %2d' %6.3f\" %s",
    "dms-short": "%d°%d'%.1f\"%s",
    "dms-zero": "%03d° %02d' %05.2f'' %s",
    "dms-sign": "%2d° %2d' %6.3f\"",
    "dms-int": "%2d° %2d' %2d\" %s",
    "dms-0": "%2d° %2d' %2.0f\" %s",
    "dm": "%2d° %2.3f' %s",
    "dm-bare": "%2d° %2.3f %s",
    "dm-sign": "%2d° %2.3f'",
    "dm-1": "%d° %.1f' %s",
    "dm-int": "%d° %d' %s",
    "d": "%2.3f°",
    "d-6": "%.6f°",
    "d-letter": "%.4f° %s",
    "d-int": "%d° %s",
}
UNIT = {"default": (3, 1e-3), "dms": (3, 1e-3), "dms-short": (3, 0.1), "dms-zero": (3, 0.01), "dms-sign": (3, 1e-3), "dms-int": (3, None), "dms-0": (3, 1), "dm": (2, 1e-3), "dm-bare": (2, 1e-3),
        "dm-sign": (2, 1e-3), "dm-1": (2, 0.1), "dm-int": (2, None), "d": (1, 1e-3), "d-6": (1, 1e-6), "d-letter": (1, 1e-4), "d-int": (1, None)}


def dec(ctx, x):
    if not ctx.symbolic:
        return x
    from fractions import Fraction as Q
    return ctx.const(Q(repr(x)) if isinstance(x, float) else Q(x))


def within(ctx, label, got, v, fmt):
    """half a unit of the last printed digit for rounded numbers, less than a unit, towards zero, for integer parts"""
    n, unit = UNIT[fmt]
    scale = 60 ** (n - 1)
    eps = 0 if ctx.symbolic else 1e-9
    d = got - v
    if unit is not None:
        h = dec(ctx, unit) / (2 * scale) if not ctx.symbolic else dec(ctx, unit) * dec(ctx, 1) / (2 * scale)
        ctx.ge0(label, h - d + eps)
        ctx.ge0(label, h + d + eps)
    else:
        a = abs(v) - abs(got)
        ctx.ge0(label, a + eps)
        ctx.ge0(label, dec(ctx, 1) / scale - a + eps)


def h_format(ctx, fmt, which):
    ct = ctx.ct
    f = FORMATS[fmt]
    other = {"lat": -8.25, "lon": 12.5}
    if which == "lat":
        lat, lon = ctx.real("lat", -90, 90), 12.5
        v = lat
    else:
        lat, lon = -8.25, ctx.real("lon", -180, 180)
        v = lon
    n, unit = UNIT[fmt]
    if not ctx.symbolic:
        # away from the ties of the rounding
        t = abs(v) * 60 ** (n - 1) / (unit or 1)
        ctx.assume(abs(t - np.floor(t) - (0.5 if unit else 0)) > 1e-4 or not unit and abs(t - np.round(t)) > 1e-4 or bool(v == 0))
    a, b = ct.formatGPS(lat, lon) if f is None else ct.formatGPS(lat, lon, format=f)
    text = a if which == "lat" else b
    letters = "NS" if which == "lat" else "EW"
    neg = bool(v < 0)
    pl = plain(text)
    if f is None or "%s" in f:
        ctx.prove("the letter names the hemisphere", pl.rstrip()[-1:] == letters[neg], repr(pl))
        ctx.prove("no sign beside a letter", "-" not in pl, repr(pl))
    else:
        ctx.prove("no letter in a format without letter", not any(c in pl for c in "NSEW"), repr(pl))
        ctx.prove("the sign of the hemisphere", pl.count("-") == neg, repr(pl))
    N = numbers(ctx, text)
    ctx.prove("degrees, minutes and seconds", len(N) == n, "%d" % len(N))
    for x in N[1:]:
        if ctx.symbolic:
            ctx.gt0("minutes and seconds are less than 60", 60 - x)
        else:
            ctx.prove("minutes and seconds are less than 60", x < 60, repr(text))
    val = 0
    for i, x in enumerate(N):
        val = val + (x / 60 ** i if not ctx.symbolic else x * (ctx.const(1) / 60 ** i))
    within(ctx, "the printed numbers are the coordinate", -val if neg else val, v, fmt)
    i = 0 if which == "lat" else 1
    for how in ("list", "blank", "comma", "single"):
        if how == "single":
            if which == "lon" and f is not None and "%s" not in f and fmt == "never":
                continue
            got = ct.gpsFromString(text)
            if got is None:
                ctx.prove("reads back", False, how)
                continue
        else:
            r = ct.gpsFromString([a, b]) if how == "list" else ct.gpsFromString(a + (" " if how == "blank" else ", ") + b)
            ctx.prove("reads back as two coordinates", r is not None and np.shape(r) == (2,), how)
            if r is None or np.shape(r) != (2,):
                continue
            got = r[i]
            within(ctx, "the other coordinate reads back", r[1 - i], lon if which == "lat" else lat, fmt)
        within(ctx, "reads back as the same coordinate", got, v, fmt)


def h_refused(ctx):
    lat, lon = ctx.real("lat", -90, 90), ctx.real("lon", -180, 180)
    f = ctx.ct.formatGPS
    ctx.raises("a format without numbers is refused", ValueError, lambda: f(lat, lon, ""))
    ctx.raises("a format with more than three numbers is refused", ValueError, lambda: f(lat, lon, "%2d %2d %2d %2d %s"))


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, opts=dict(max_paths=30000), nreplay=8))
    for k in FORMATS:
        for w in ("lat", "lon"):
            add("%s-%s" % (k, w), h_format, fmt=k, which=w)
    add("refused", h_refused)
    return out
