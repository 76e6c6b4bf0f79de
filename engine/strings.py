"""Strings with symbolic numerals: a str whose digits stand for symbolic values.

A SymStr is an ordinary str (a representative with placeholder digits) plus tokens (start, end, value): the
characters start..end are the decimal digits (and the decimal point) of `value`.  The number of digits is
fixed on every path (the engine forks on it), so positions are exact; everything that would look at
single digits of a number raises Unsupported.
"""
import re as _re
from fractions import Fraction as Q

from . import sym as S
from .sym import Unsupported, Sym

DIGIT = "5"
NUMERAL = set("0123456789")


class SymStr(str):
    def __new__(cls, text, toks=()):
        r = str.__new__(cls, text)
        r.toks = sorted(toks, key=lambda t: t[0])
        return r

    # ---- parts
    def _cut(self, a, b):
        text = str.__getitem__(self, slice(a, b))
        toks = []
        for s, e, v in self.toks:
            if e <= a or s >= b:
                continue
            whole = s >= a and e <= b
            toks.append((max(s, a) - a, min(e, b) - a, v if whole else None))
        return SymStr(text, toks) if toks else text

    def __getitem__(self, i):
        n = len(self)
        if isinstance(i, slice):
            a, b, st = i.indices(n)
            if st != 1:
                raise Unsupported("string step")
            return self._cut(a, max(a, b))
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            raise IndexError("string index out of range")
        return self._cut(j, j + 1)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _by(self, part, left=True):
        """slice at the place of an untouched part"""
        a = str.find(self, part) if left else str.rfind(self, part)
        return self._cut(a, a + len(part))

    def strip(self, *c):
        return self.lstrip(*c).rstrip(*c)

    def _nodigits(self, *a):
        for x in a:
            if isinstance(x, str) and any(ch in NUMERAL for ch in x):
                raise Unsupported("digits of a symbolic number")

    def lstrip(self, *c):
        self._nodigits(*c)
        return self._cut(len(self) - len(str.lstrip(self, *c)), len(self))

    def rstrip(self, *c):
        self._nodigits(*c)
        return self._cut(0, len(str.rstrip(self, *c)))

    def removesuffix(self, x):
        return self._cut(0, len(self) - len(x)) if self.endswith(x) else self

    def removeprefix(self, x):
        return self._cut(len(x), len(self)) if self.startswith(x) else self

    def split(self, sep=None, maxsplit=-1):
        self._nodigits(sep)
        out, pos = [], 0
        for p in str.split(self, sep, maxsplit):
            a = str.find(self, p, pos)
            out.append(self._cut(a, a + len(p)))
            pos = a + len(p) + (len(sep) if sep else 0)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        raise Unsupported("rsplit")

    def partition(self, sep):
        self._nodigits(sep)
        a = str.find(self, sep)
        if a < 0:
            return self, "", ""
        return self._cut(0, a), sep, self._cut(a + len(sep), len(self))

    def splitlines(self, *a):
        raise Unsupported("splitlines")

    def encode(self, *a, **k):
        raise Unsupported("encode")

    def translate(self, *a):
        raise Unsupported("translate")

    # ---- searching
    def __contains__(self, x):
        self._nodigits(x)
        return str.__contains__(self, x)

    def startswith(self, x, *a):
        s = self[a[0]:(a[1] if len(a) > 1 else len(self))] if a else self
        for y in (x if isinstance(x, tuple) else (x,)):
            if len(s) >= len(y) and SymStr._cut(s, 0, len(y)) == y if isinstance(s, SymStr) else s.startswith(y):
                return True
        return False

    def endswith(self, x, *a):
        s = self[a[0]:(a[1] if len(a) > 1 else len(self))] if a else self
        for y in (x if isinstance(x, tuple) else (x,)):
            if len(s) >= len(y) and SymStr._cut(s, len(s) - len(y), len(s)) == y if isinstance(s, SymStr) else s.endswith(y):
                return True
        return False

    def find(self, x, *a):
        self._nodigits(x)
        return str.find(self, x, *a)

    def index(self, x, *a):
        self._nodigits(x)
        return str.index(self, x, *a)

    def count(self, x, *a):
        self._nodigits(x)
        return str.count(self, x, *a)

    # ---- building
    def __add__(self, o):
        return concat([self, o]) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return concat([o, self]) if isinstance(o, str) else NotImplemented

    def replace(self, old, new, count=-1):
        self._nodigits(old)
        if old == "":
            raise Unsupported("replace")
        out, pos = [], 0
        while count != 0:
            a = str.find(self, old, pos)
            if a < 0:
                break
            out += [self._cut(pos, a), new]
            pos = a + len(old)
            count -= 1
        return concat(out + [self._cut(pos, len(self))])

    def _same(self, f):
        t = f(self)
        if len(t) != len(self):
            raise Unsupported("case")
        return SymStr(t, self.toks)

    def upper(self):
        return self._same(str.upper)

    def lower(self):
        return self._same(str.lower)

    def _pad(self, n, left, ch=" "):
        m = max(0, n - len(self))
        return concat([ch * m, self]) if left else concat([self, ch * m])

    def rjust(self, n, ch=" "):
        return self._pad(n, True, ch)

    def ljust(self, n, ch=" "):
        return self._pad(n, False, ch)

    def zfill(self, n):
        raise Unsupported("zfill")

    def center(self, *a):
        raise Unsupported("center")

    def __mul__(self, n):
        return concat([self] * n)

    def __format__(self, spec):
        raise Unsupported("format of a symbolic string outside of an f-string")

    def __mod__(self, a):
        return fmt_mod(self, a)

    def join(self, xs):
        return join(self, xs)

    def __str__(self):
        return self

    # ---- comparing: equal texts if the other characters are equal and the numbers have the same digits
    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if len(o) != len(self):
            return False
        if not isinstance(o, SymStr):
            return self._eq_plain(o)
        cover = [False] * len(self)
        pairs = []
        ot = {(s, e): v for s, e, v in o.toks}
        for s, e, v in self.toks:
            if (s, e) in ot:
                w = ot.pop((s, e))
            elif not any(a < e and s < b for a, b, _ in o.toks):
                w = value_of(str.__getitem__(o, slice(s, e)))
                if w is None:
                    return False
            else:
                raise Unsupported("comparison of parts of numbers")
            if v is None or w is None or dots(self, s, e) != dots(o, s, e):
                raise Unsupported("comparison of parts of numbers")
            pairs.append((v, w))
            cover[s:e] = [True] * (e - s)
        for (s, e), w in ot.items():
            v = value_of(str.__getitem__(self, slice(s, e)))
            if v is None or w is None:
                return False
            pairs.append((v, w))
            cover[s:e] = [True] * (e - s)
        for i, c in enumerate(cover):
            if not c and str.__getitem__(self, i) != str.__getitem__(o, i):
                return False
        return all(bool(S.lift(v) == S.lift(w)) for v, w in pairs)

    def _eq_plain(self, o):
        pos, pairs = 0, []
        for s, e, v in self.toks:
            if str.__getitem__(self, slice(pos, s)) != o[pos:s]:
                return False
            w = value_of(o[s:e])
            if w is None or dots(self, s, e) != dots(o, s, e):
                return False
            if v is None:
                raise Unsupported("comparison of parts of numbers")
            pairs.append((v, w))
            pos = e
        if str.__getitem__(self, slice(pos, len(self))) != o[pos:]:
            return False
        return all(bool(S.lift(v) == S.lift(w)) for v, w in pairs)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        raise Unsupported("order of symbolic strings")

    __gt__ = __le__ = __ge__ = __lt__

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")


def dots(s, a, b):
    return [i for i in range(a, b) if str.__getitem__(s, i) == "."]


def value_of(t):
    if not t or any(c not in "0123456789." for c in t) or t.count(".") > 1 or t == ".":
        return None
    return Q(t if t[-1] != "." else t[:-1])


def concat(parts):
    text, toks = "", []
    for p in parts:
        if isinstance(p, SymStr):
            toks += [(s + len(text), e + len(text), v) for s, e, v in p.toks]
        text = str.__add__(text, str.__getitem__(p, slice(None)) if isinstance(p, SymStr) else p)
    return SymStr(text, toks) if toks else text


def join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        if not isinstance(x, str):
            raise TypeError("sequence item %d: expected str instance" % i)
        out.append(x)
    return concat(out)


# ------------------------------------------------------------------ numbers -> text

def magnitude(x, digits_after, flags="", width=0, sign=""):
    """text of a non-negative value with its integer digits counted"""
    for n in range(1, 8):
        if x < 10 ** n:
            break
    else:
        raise Unsupported("number with more than 7 digits")
    text = DIGIT * n + ("." + DIGIT * digits_after if digits_after else "")
    if "0" in flags and "-" not in flags:
        text = "0" * max(0, width - len(sign) - len(text)) + text
    return SymStr(text, [(0, len(text), x)])


def number(x, flags, width, prec, kind):
    if kind in "di":
        if prec not in (None, 0):
            raise Unsupported("precision of an integer")
        v = S.sx_trunc(x)
        neg = bool(v < 0)
        m, p = (-v if neg else v), 0
    elif kind in "fF":
        p = 6 if prec is None else prec
        neg = bool(x < 0)
        m = S.sx_round(-x if neg else x, p)
    else:
        raise Unsupported("number format %" + kind)
    sign = "-" if neg else ("+" if "+" in flags else (" " if " " in flags else ""))
    t = concat([sign, magnitude(m, p, flags, width, sign)])
    return t.ljust(width) if "-" in flags or "<" in flags else t.rjust(width)


SPEC = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ 0#]*)(?P<width>\d*|\*)(?:\.(?P<prec>\d*))?[hlL]?(?P<kind>.)", _re.S)


def unpack(x):
    import numpy as np
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
        return x.reshape(-1)[0]
    return x


def fmt_mod(f, a):
    if isinstance(f, SymStr) and any(v is not None for _, _, v in f.toks) and "%" not in f:
        raise TypeError("not all arguments converted during string formatting")
    args = a if isinstance(a, tuple) else (a,)
    args = tuple(unpack(x) for x in args)
    if isinstance(a, dict) or not any(isinstance(x, (Sym, SymStr)) for x in args):
        if isinstance(a, dict) and any(isinstance(x, (Sym, SymStr)) for x in a.values()):
            raise Unsupported("format with names")
        if isinstance(f, SymStr):
            raise Unsupported("symbolic format")
        return f % a
    if isinstance(f, SymStr):
        raise Unsupported("symbolic format")
    out, pos, i = [], 0, 0
    for m in SPEC.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        if m["kind"] == "%":
            out.append("%")
            continue
        if m["key"] is not None or m["width"] == "*":
            raise Unsupported("format with names")
        if i >= len(args):
            raise TypeError("not enough arguments for format string")
        x = args[i]
        i += 1
        width = int(m["width"] or 0)
        if isinstance(x, Sym) and m["kind"] not in "sr":
            out.append(number(x, m["flags"], width, None if m["prec"] is None else int(m["prec"] or 0), m["kind"]))
        elif isinstance(x, SymStr):
            if m["kind"] != "s" or m["prec"]:
                raise Unsupported("format of a symbolic string")
            out.append(x.ljust(width) if "-" in m["flags"] else x.rjust(width))
        elif isinstance(x, Sym):
            raise Unsupported("text of a symbolic number")
        else:
            out.append(m.group(0) % (x,))
    out.append(f[pos:])
    if i < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return concat(out)


FSPEC = _re.compile(r"(?:(?P<fill>.)?(?P<align>[<>^=]))?(?P<sign>[-+ ])?(?P<zero>0)?(?P<width>\d*)(?:\.(?P<prec>\d+))?(?P<kind>[a-zA-Z])?$")


def fmt(x, spec="", conv=None):
    """format(x, spec) in f-strings and str.format"""
    x = unpack(x)
    if not isinstance(x, (Sym, SymStr)):
        if conv in ("r", "s", "a"):
            x = {"r": repr, "s": str, "a": ascii}[conv](x)
        return format(x, spec)
    m = FSPEC.match(spec)
    if not m or m["align"] in ("^", "=") or m["fill"] not in (None, " "):
        raise Unsupported("format " + spec)
    width = int(m["width"] or 0)
    if isinstance(x, SymStr):
        return x.rjust(width) if m["align"] == ">" else x.ljust(width)
    if conv:
        raise Unsupported("text of a symbolic number")
    if m["kind"] is None:
        raise Unsupported("text of a symbolic number")
    if m["kind"] == "d":
        if not S._is_integer(x):
            raise ValueError("Unknown format code 'd' for object of type 'float'")
    return number(x, ("+" if m["sign"] == "+" else " " if m["sign"] == " " else "") + ("0" if m["zero"] else "") + ("<" if m["align"] == "<" else ""), width,
                  None if m["prec"] is None else int(m["prec"]), m["kind"])


def fstring(*parts):
    return concat([str(p) if not isinstance(p, str) else p for p in parts])


def method(obj, name, *a, **k):
    """obj.format(...) / obj.join(...) of the package under test"""
    if isinstance(obj, str) and not isinstance(obj, SymStr):
        if name == "join":
            xs = list(a[0])
            if any(isinstance(x, SymStr) for x in xs):
                return join(obj, xs)
            return obj.join(xs)
        if name == "format" and any(isinstance(unpack(x), (Sym, SymStr)) for x in list(a) + list(k.values())):
            import string
            out, auto = [], 0
            for lit, field, spec, conv in string.Formatter().parse(obj):
                out.append(lit)
                if field is None:
                    continue
                if field == "":
                    x, auto = a[auto], auto + 1
                elif field.isdigit():
                    x = a[int(field)]
                elif field.isidentifier():
                    x = k[field]
                else:
                    raise Unsupported("format field " + field)
                out.append(fmt(x, spec or "", conv))
            return concat(out)
    return getattr(obj, name)(*a, **k)


def format_sym(s, spec):
    raise Unsupported("format")


def str_sym(s):
    return "<sym>"


# ------------------------------------------------------------------ text -> numbers

def parse(s, what):
    t = s.strip()
    if not isinstance(t, SymStr):
        return what(t)
    try:
        what(str.__getitem__(t, slice(None)))
    except ValueError:
        raise ValueError("could not convert string to number: %r" % str.__getitem__(t, slice(None)))
    neg = False
    if str.__getitem__(t, 0) in "+-":
        neg = str.__getitem__(t, 0) == "-"
        t = t[1:]
    text = str.__getitem__(t, slice(None))
    if any(c not in "0123456789." for c in text):
        raise Unsupported("numeral " + text)
    if len(t.toks) == 1 and t.toks[0][:2] == (0, len(text)):
        v = t.toks[0][2]
        if v is None:
            raise Unsupported("part of a symbolic number")
    else:
        toks = {a: (b, x) for a, b, x in t.toks}
        after, seen, v, i = 0, False, S.Sym({}), 0
        while i < len(text):
            if text[i] == ".":
                seen, i = True, i + 1
                continue
            if i in toks:
                b, d = toks[i]
                if d is None or "." in text[i:b]:
                    raise Unsupported("part of a symbolic number")
            else:
                b, d = i + 1, int(text[i])
            v = v * 10 ** (b - i) + d
            after += (b - i) if seen else 0
            i = b
        v = v * Q(1, 10 ** after)
    return -v if neg else v


def parse_float(s):
    return parse(s, float)


def parse_int(s):
    return parse(s, int)
