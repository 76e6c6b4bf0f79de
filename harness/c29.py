"""C29: intrinsic parameters from the exif data of an image."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import types

import numpy as np
from .common import *
from .gpstext import build, numeral

META = dict(bounds="every focal length, resolution (fractions of integers) and image size; exif fractions as (numerator, denominator) of old Pillow versions and as rational numbers of current ones; with and without sensor database "
                   "(up to three entries, symbolic sensor sizes, model names that contain each other), printing or not",
            stubs=["PIL is replaced by an image with these exif data (the replay writes and reads a real jpeg file with the installed Pillow)", "the sensor database file has symbolic numerals; nothing is downloaded"],
            assumptions=["the resolution of the focal plane is given per inch"])

TAG = dict(FocalLength=0x920A, ExifImageWidth=0xA002, ExifImageHeight=0xA003, FocalPlaneXResolution=0xA20E, FocalPlaneYResolution=0xA20F, Model=0x0110, Make=0x010F)


def rational(ctx, a, b, form):
    if form == "tuple":
        return (a, b)
    S = ctx.S

    class Rational(S.Sym):
        def __getitem__(self, i):
            raise TypeError("'IFDRational' object is not subscriptable")
    r = Rational((a / b).t)
    r.numerator, r.denominator = a, b
    return r


class Exif(dict):
    def get_ifd(self, n):
        return dict(self)


class Image:
    def __init__(self, tags):
        self.tags = tags

    def _getexif(self):
        return dict(self.tags)

    def getexif(self):
        return Exif(self.tags)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@contextlib.contextmanager
def picture(ctx, values, form):
    """a file name that has these exif data"""
    if not ctx.symbolic and form != "tuple":
        from PIL import Image as I
        from PIL.TiffImagePlugin import IFDRational
        d = tempfile.mkdtemp(prefix="verif-c29-")
        try:
            im = I.new("RGB", (4, 4))
            ex = im.getexif()
            sub = ex.get_ifd(0x8769)
            for k, v in values.items():
                if k in ("Model", "Make"):
                    ex[TAG[k]] = v
                else:
                    sub[TAG[k]] = IFDRational(int(v[0]), int(v[1])) if isinstance(v, tuple) else int(v)
            ex._ifds[0x8769] = sub
            fn = os.path.join(d, "image.jpg")
            im.save(fn, exif=ex)
            yield fn
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return
    tags = {TAG[k]: (rational(ctx, v[0], v[1], form) if isinstance(v, tuple) else v) for k, v in values.items()}
    import PIL
    import PIL.ExifTags
    fake = types.ModuleType("PIL.Image")
    fake.open = lambda fn, *a, **k: Image(tags)
    old, olda = sys.modules.get("PIL.Image"), getattr(PIL, "Image", None)
    sys.modules["PIL.Image"] = fake
    PIL.Image = fake
    try:
        yield "image.jpg"
    finally:
        if old is None:
            sys.modules.pop("PIL.Image", None)
        else:
            sys.modules["PIL.Image"] = old
        if olda is None:
            del PIL.Image
        else:
            PIL.Image = olda


@contextlib.contextmanager
def database(ctx, rows):
    """a working directory with this sensor database"""
    d = tempfile.mkdtemp(prefix="verif-c29-")
    cwd = os.getcwd()
    lines = [build(ctx, [r[0], ";", r[1], ";CMOS;", r[2], ";", r[3], ";12\n"]) for r in rows]
    fn = os.path.join(d, "sensor_database_detailed.csv")
    with open(fn, "w") as fp:
        fp.write("".join(str.__getitem__(l, slice(None)) for l in lines))
    os.chdir(d)
    mod = sys.modules["cameratransform.camera"]

    class File(io.StringIO):
        def readlines(self, *a):
            return list(lines)

        def __iter__(self):
            return iter(lines)

        def read(self, *a):
            return build(ctx, lines)

    def fake(name, mode="r", *a, **k):
        if os.path.abspath(str(name)) == os.path.abspath(fn) and "w" not in mode:
            return File()
        return open(name, mode, *a, **k)
    if ctx.symbolic:
        mod.open = fake
    try:
        yield
    finally:
        os.chdir(cwd)
        if ctx.symbolic:
            del mod.open
        shutil.rmtree(d, ignore_errors=True)


def h_exif(ctx, form, db=None, ask=False, verbose=False):
    ct = ctx.ct
    n = lambda name, lo, hi: ctx.num(name, lo, hi)
    fl = (n("fa", 1, 9000), n("fb", 1, 10))
    w, h = n("w", 10, 9000), n("h", 10, 9000)
    xr, yr = (n("xa", 1000, 90000), n("xb", 1, 30)), (n("ya", 1000, 90000), n("yb", 1, 30))
    if verbose:          # few numbers of digits
        fl, w, h, xr, yr = (n("fa", 20, 90), 1), n("w", 4000, 6000), n("h", 4000, 6000), (n("xa", 4000, 6000), 1), (n("ya", 4000, 6000), 1)
    model = "Canon EOS 50D"
    V = dict(FocalLength=fl, ExifImageWidth=w, ExifImageHeight=h, FocalPlaneXResolution=xr, FocalPlaneYResolution=yr, Model=model, Make="Canon")
    rows, sw, sh = [], None, None
    if db:
        for i, m in enumerate(db):
            a, va = numeral(ctx, "sw%d" % i, 2, 1)
            b, vb = numeral(ctx, "sh%d" % i, 1, 2)
            ctx.pos(va, vb)
            rows.append(m.split(" ", 1) + [a, b])
            if ask and m == model and sw is None:
                sw, sh = va, vb
    if sw is None:
        inch = 25.4 if not ctx.symbolic else ctx.const(254) / 10
        sw, sh = w * xr[1] / xr[0] * inch, h * yr[1] / yr[0] * inch
    with picture(ctx, V, form) as fn, database(ctx, rows):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = ct.getCameraParametersFromExif(fn, verbose=verbose, sensor_from_database=ask)
    ctx.prove("focal length, sensor and image size", len(r) == 3 and len(r[1]) == 2 and len(r[2]) == 2)
    f, sensor, image = r
    ctx.eq("the focal length in mm", f, fl[0] / fl[1], tol=1e-6)
    ctx.eq("the size of the image", vec(ctx, list(image)), vec(ctx, [w, h]))
    ctx.eq("the size of the sensor", vec(ctx, list(sensor)), vec(ctx, [sw, sh]))
    p = ct.RectilinearProjection(focallength_mm=f, sensor=sensor, image=image)
    ctx.eq("a projection with these parameters: horizontal focal length", p.focallength_x_px, fl[0] / fl[1] / sw * w)
    ctx.eq("a projection with these parameters: vertical focal length", p.focallength_y_px, fl[0] / fl[1] / sh * h)
    ctx.eq("a projection with these parameters: image size", vec(ctx, [p.image_width_px, p.image_height_px]), vec(ctx, [w, h]))


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, opts=dict(max_paths=20000), nreplay=4))
    for form in ("tuple", "rational"):
        add("exif-" + form, h_exif, form=form)
        add("exif-%s-print" % form, h_exif, form=form, verbose=True)
        for i, db in enumerate((("Canon EOS 50D",), ("Canon EOS 5", "Canon EOS 50D", "Canon EOS 50D Mark II"), ("Canon EOS 50D Mark II", "Canon EOS 5"), ("Nikon EOS 50D", "Canon EOS 50D"))):
            add("database-%s-%d" % (form, i), h_exif, form=form, db=db, ask=True)
        add("database-%s-not-asked" % form, h_exif, form=form, db=("Canon EOS 50D",))
        add("database-%s-print" % form, h_exif, form=form, db=("Canon EOS 50D",), ask=True, verbose=True)
    return out
