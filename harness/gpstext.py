"""Texts of coordinates with symbolic digits (plain text when replayed)."""
import re


def build(ctx, parts):
    """concatenate texts, keeping symbolic numerals"""
    if not ctx.symbolic:
        return "".join(str(p) for p in parts)
    from engine.strings import concat
    return concat(parts)


def numeral(ctx, name, ni, nf=0):
    """(text, value) of a numeral with ni digits before and nf digits after the point, every digit symbolic"""
    ds = [ctx.num("%s_%d" % (name, i), 0, 9) for i in range(ni + nf)]
    v = 0
    for d in ds:
        v = v * 10 + d
    if ctx.symbolic:
        from fractions import Fraction as Q
        from engine.strings import SymStr
        v = v * Q(1, 10 ** nf)
        text = "5" * ni + ("." + "5" * nf if nf else "")
        pos = [i for i in range(len(text)) if text[i] != "."]
        return SymStr(text, [(i, i + 1, d) for i, d in zip(pos, ds)]), v
    t = "".join("%d" % int(d) for d in ds)
    return t[:ni] + ("." + t[ni:] if nf else ""), v / 10 ** nf


def numbers(ctx, text):
    """the values of the numerals printed in a text, in order"""
    if not ctx.symbolic or not hasattr(text, "toks"):
        return [float(x) for x in re.findall(r"\d+(?:\.\d+)?", text)]
    from engine.strings import parse_float
    return [parse_float(text._cut(m.start(), m.end())) for m in re.finditer(r"\d+(?:\.\d+)?", str.__getitem__(text, slice(None)))]


def plain(text):
    """the characters between the numerals"""
    return re.sub(r"\d+(?:\.\d+)?", "#", str.__getitem__(text, slice(None)))
