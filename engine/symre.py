"""re for the package under test: like re, also for strings with symbolic numerals"""
import re as _re
from .strings import SymStr, concat, Unsupported

Match, Pattern, error = _re.Match, _re.Pattern, _re.error


def __getattr__(n):
    return getattr(_re, n)


def variants(s):
    """the same text with other digits"""
    for d in "5091":
        t = list(str.__getitem__(s, slice(None)))
        for a, b, v in s.toks:
            for i in range(a, b):
                if t[i] != ".":
                    t[i] = d
        yield "".join(t)


def spans(m):
    return None if m is None else tuple(m.span(i) for i in range(0, (m.re.groups or 0) + 1))


class SymMatch:
    def __init__(self, m, s):
        self.m, self.string, self.re, self.lastindex, self.lastgroup = m, s, m.re, m.lastindex, m.lastgroup

    def _get(self, g, default=None):
        a, b = self.m.span(g)
        return default if a < 0 else self.string._cut(a, b)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._get(g) for g in gs)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.m.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(k, default) for k in self.m.re.groupindex}

    def span(self, *g):
        return self.m.span(*g)

    def start(self, *g):
        return self.m.start(*g)

    def end(self, *g):
        return self.m.end(*g)

    def __bool__(self):
        return True


def call(pat, name, s, *a):
    """the matches, which have to be the same for other digits"""
    res = []
    for t in variants(s):
        r = getattr(pat, name)(t, *a)
        res.append(list(r) if name == "finditer" else r)
    key = lambda r: [spans(m) for m in r] if name == "finditer" else spans(r)
    if any(key(r) != key(res[0]) for r in res):
        raise Unsupported("regular expression that depends on the digits")
    return res[0]


class Pat:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, n):
        return getattr(self.p, n)

    def _one(self, name, s, *a):
        if not isinstance(s, SymStr):
            return getattr(self.p, name)(s, *a)
        m = call(self.p, name, s, *a)
        return None if m is None else SymMatch(m, s)

    def match(self, s, *a):
        return self._one("match", s, *a)

    def fullmatch(self, s, *a):
        return self._one("fullmatch", s, *a)

    def search(self, s, *a):
        return self._one("search", s, *a)

    def finditer(self, s, *a):
        if not isinstance(s, SymStr):
            return self.p.finditer(s, *a)
        return iter([SymMatch(m, s) for m in call(self.p, "finditer", s, *a)])

    def findall(self, s, *a):
        if not isinstance(s, SymStr):
            return self.p.findall(s, *a)
        out = []
        for m in self.finditer(s, *a):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def subn(self, repl, s, count=0):
        if not isinstance(s, SymStr) and not callable(repl):
            return self.p.subn(repl, s, count)
        if not isinstance(s, SymStr):
            s = SymStr(s)
        if not callable(repl):
            if "\\" in repl:
                raise Unsupported("replacement with groups")
            r = repl
            repl = lambda m: r
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += [s._cut(pos, m.start()), repl(m)]
            pos = m.end()
            n += 1
        return concat(out + [s._cut(pos, len(s))]), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.p.split(s, maxsplit)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s._cut(pos, m.start()))
            out += list(m.groups())
            pos = m.end()
            n += 1
        return out + [s._cut(pos, len(s))]


def compile(p, flags=0):
    return p if isinstance(p, Pat) else Pat(_re.compile(p, flags))


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def subn(p, repl, s, count=0, flags=0):
    return compile(p, flags).subn(repl, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)
