"""Path exploration, sign decisions and solver queries."""
import itertools
import math
import random
import time
from fractions import Fraction as Q

from .rawnp import np
import z3

from . import sym as S
from .sym import Sym, Infeasible, Restart, Unsupported, PathLimit, TooBig

ALL = frozenset((-1, 0, 1))
NSAMP = 48


def _iv_mul(a, b):
    ps = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                ps.append(0)
            elif x in (S.INF, -S.INF) or y in (S.INF, -S.INF):
                ps.append(S.INF if (x > 0) == (y > 0) else -S.INF)
            else:
                ps.append(x * y)
    return min(ps), max(ps)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.feas_queries = 0
        self.paths = 0
        self.infeasible = 0
        self.obligations = 0
        self.nodes = 0
        self.reduced = 0
        self.raw_confirmed = 0
        self.raw_unknown = 0
        self.contradicted = None


def sum_of_squares(poly, sg):
    """is sg*poly = h^T G h with a positive semidefinite rational matrix G over the square roots h of its even
    monomials?  0: not found, 1: yes (>= 0), 2: yes and > 0"""
    halves = {}
    for m, c in poly.items():
        if all(e > 0 and e % 2 == 0 for _, e in m):
            if c * sg < 0:
                return 0
            halves[tuple((k, e // 2) for k, e in m)] = len(halves)
    n = len(halves)
    if not 1 < n <= 14 or len(poly) > n * (n + 1) // 2:
        return 0
    prod = {}
    hs = list(halves)
    for i in range(n):
        for j in range(i):
            prod.setdefault(S.mono_mul(hs[i], hs[j]), []).append((i, j))
    G = [[Q(0)] * n for _ in range(n)]
    for m, c in poly.items():
        h = tuple((k, e // 2) for k, e in m) if all(e % 2 == 0 for _, e in m) else None
        if h in halves:
            G[halves[h]][halves[h]] = Q(c) * sg
            continue
        ij = prod.get(m)
        if not ij or len(ij) != 1:
            return 0
        i, j = ij[0]
        G[i][j] = G[j][i] = Q(c) * sg / 2
    strict = True
    for i in range(n):
        d = G[i][i]
        if d < 0:
            return 0
        if d == 0:
            if any(G[i][j] for j in range(i + 1, n)):
                return 0
            strict = False
            continue
        for j in range(i + 1, n):
            f = G[i][j] / d
            if f:
                for k in range(i + 1, n):
                    G[j][k] -= f * G[i][k]
    return 2 if strict and () in halves else 1


class Engine:
    """one engine per harness execution (all paths)"""

    def __init__(self, seed=1, feas_ms=400, prove_ms=8000, max_paths=4000, deadline=None):
        self.seed = seed
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.zcache = {}
        self.failures = []         # (obligation label, candidate assignments, info)
        self.undecided = []        # obligations neither proved nor refuted
        self.witnesses = []        # per path witness assignments
        self.unsupported = []
        self.notes = set()
        S.set_engine(self)

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        while True:
            try:
                self._explore(fn)
                return
            except Restart:
                self.failures.clear()
                self.undecided.clear()
                self.witnesses.clear()
                self.unsupported.clear()
                self.stats.paths = 0

    def _explore(self, fn):
        S.reset()
        self.zcache = {}
        self.sampcache = {}
        S._simpcache.clear()
        S._powcache.clear()
        work = [[]]
        while work:
            if self.stats.paths >= self.max_paths:
                self.unsupported.append("path limit %d reached" % self.max_paths)
                return
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append("time limit reached")
                return
            prefix = work.pop()
            self.prefix = prefix
            self.trace = []
            self.alts = []
            self.sign = {}
            self.facts = []            # z3 facts
            self.fact_bases = set()
            self.trigcache = {}
            self.known_angles = []
            self.alive = np.ones(NSAMP, dtype=bool)
            self.vars_order = []
            self.path_failed = False
            self.assumed = []
            self.reached = []
            self.stats.paths += 1
            try:
                fn(self)
                self.end_path()
            except Infeasible:
                self.stats.infeasible += 1
            except Unsupported as e:
                import traceback
                self.unsupported.append("%s @ %s" % (e, traceback.extract_tb(e.__traceback__)[-1].name))
                self.end_path(note="unsupported")
            for pos, n in self.alts:
                work.append(self.trace[:pos] + [n])
        # done

    def end_path(self, note=None):
        w = self.path_witness()
        self.witnesses.append(dict(assign=w, note=note, depth=len(self.trace), failed=self.path_failed,
                                   reached=list(self.reached)))

    # ------------------------------------------------------------ sampling
    def sample(self, b):
        """float values of base b on the sample points"""
        v = self.sampcache.get(b.id)
        if v is not None:
            return v
        with np.errstate(all="ignore"):
            v = self._sample(b)
        self.sampcache[b.id] = v
        return v

    def _sample(self, b):
        k = b.kind
        if k == "pi":
            return np.full(NSAMP, math.pi)
        if k == "var":
            ex = b.extra
            if isinstance(ex, tuple) and ex[0] == "floor":
                return np.floor(self.eval(ex[1]))
            if isinstance(ex, tuple) and ex[0] == "round":
                return np.round(self.eval(ex[1]))
            rng = random.Random("%s/%s" % (self.seed, b.name))
            lo = float(b.lo) if b.lo is not None else -50.0
            hi = float(b.hi) if b.hi is not None else 50.0
            if b.lo is not None and b.hi is None:
                hi = lo + 50
            if b.hi is not None and b.lo is None:
                lo = hi - 50
            prefer = ex.get("prefer") if isinstance(ex, dict) else None
            if prefer is not None:
                lo, hi = float(prefer[0]), float(prefer[1])
            out = []
            for i in range(NSAMP):
                if b.integer:
                    out.append(float(rng.randint(int(math.ceil(lo)), int(math.floor(hi)))))
                else:
                    r = rng.uniform(lo, hi)
                    if i % 3 == 0:
                        r = min(max(round(r, 2), lo), hi)
                    out.append(r)
            return np.array(out)
        if k == "sin":
            return np.sin(self.eval(b.args[0]))
        if k == "cos":
            return np.cos(self.eval(b.args[0]))
        if k == "sqrt":
            return np.sqrt(self.eval(Sym(b.poly)))
        if k == "poly":
            return self.eval(Sym(b.poly))
        if k == "inv":
            n = b.name
            if n.startswith("atan2"):
                return np.arctan2(self.eval(b.args[0]), self.eval(b.args[1]))
            if n.startswith("asin"):
                return np.arcsin(self.eval(b.args[0]))
        if k == "fn":
            if b.name.startswith("exp"):
                return np.exp(self.eval(b.args[0]))
            if b.name.startswith("log"):
                return np.log(self.eval(b.args[0]))
            if isinstance(b.extra, dict) and "eval" in b.extra:
                return b.extra["eval"](*[self.eval(a) for a in b.args])
        return np.full(NSAMP, np.nan)

    def eval(self, s):
        tot = np.zeros(NSAMP)
        with np.errstate(all="ignore"):
            for m, c in s.t.items():
                v = np.full(NSAMP, float(c))
                for k, e in m:
                    v = v * self.sample(S.T.bases[k]) ** float(e)
                tot = tot + v
        return tot

    def scale(self, s):
        """magnitude of the largest term, to judge cancellation"""
        tot = np.zeros(NSAMP)
        with np.errstate(all="ignore"):
            for m, c in s.t.items():
                v = np.full(NSAMP, abs(float(c)))
                for k, e in m:
                    v = v * np.abs(self.sample(S.T.bases[k])) ** float(e)
                tot = np.maximum(tot, v)
        return tot

    def base_signs(self, b):
        """sign per sample: -1/0/1, 9 = ambiguous"""
        key = ("sg", b.id)
        r = self.sampcache.get(key)
        if r is None:
            v = self.sample(b)
            sc = self.scale(Sym(b.poly)) if b.kind == "poly" else np.abs(v)
            with np.errstate(all="ignore"):
                r = np.where(np.isnan(v), 9, np.sign(np.where(np.isnan(v), 0, v))).astype(int)
                tiny = np.abs(v) <= 1e-11 * sc
                r = np.where(tiny & (r != 9) & (sc > 0), 9 if b.kind == "poly" else r, r)
            self.sampcache[key] = r
        return r

    # ------------------------------------------------------------ signs
    def interval(self, b, depth=0):
        key = ("iv", b.id)
        r = self.sampcache.get(key)
        if r is not None:
            return r
        lo, hi = -S.INF, S.INF
        if b.kind == "poly" and len(b.poly) <= 60:
            lo, hi = self.interval_terms(b.poly)
        elif b.kind == "sqrt":
            lo = 0
            if len(b.poly) <= 60:
                pl, ph = self.interval_terms(b.poly)
                if pl > 0 and pl != S.INF:
                    lo = Q(math.sqrt(float(pl)) * (1 - 1e-9))
                if 0 <= ph < 1e200:
                    hi = Q(math.sqrt(float(ph)) * (1 + 1e-9) + 1e-12)
        elif b.kind == "inv":
            lo, hi = Q(-32, 10), Q(32, 10)
            if b.name.startswith("asin"):
                lo, hi = Q(-16, 10), Q(16, 10)
        elif b.kind in ("sin", "cos") and b.args:
            lo, hi = self.trig_interval(b)
        elif b.kind == "fn" and b.name.startswith("exp"):
            lo = 0
        if b.lo is not None:
            lo = max(lo, b.lo)
        if b.hi is not None:
            hi = min(hi, b.hi)
        self.sampcache[key] = (lo, hi)
        return lo, hi

    def trig_interval(self, b):
        """range of a sine / cosine over the interval of its argument (outward rounded)"""
        a, z = self.interval_terms(b.args[0].t)
        if abs(a) == S.INF or abs(z) == S.INF:
            return Q(-1), Q(1)
        a, z = float(a), float(z)
        if z - a > 6.28 or max(abs(a), abs(z)) > 1e4:
            return Q(-1), Q(1)
        off = 0.0 if b.kind == "sin" else math.pi / 2
        x0, x1 = a + off, z + off
        v = [math.sin(x0), math.sin(x1)]
        eps = 1e-9
        lo, hi = min(v) - eps, max(v) + eps
        # extrema at pi/2 + k*pi
        k0 = math.ceil((x0 - eps - math.pi / 2) / math.pi)
        k1 = math.floor((x1 + eps - math.pi / 2) / math.pi)
        for k in range(k0, k1 + 1):
            if k % 2 == 0:
                hi = 1.0
            else:
                lo = -1.0
        # an argument interval that ends exactly at a zero keeps the sign
        return Q(max(lo, -1.0)), Q(min(hi, 1.0))

    def interval_terms(self, terms):
        lo = hi = 0
        for m, c in terms.items():
            a = (c, c)
            for k, e in m:
                bi = self.interval(S.T.bases[k])
                if e > 0:
                    p = bi
                    if e % 2 == 0:
                        x = max(abs(bi[0]), abs(bi[1]))
                        l = 0 if bi[0] <= 0 <= bi[1] else min(abs(bi[0]), abs(bi[1]))
                        sq = (l ** e if l not in (S.INF,) else S.INF, x ** e if x != S.INF else S.INF)
                        p = sq
                    else:
                        p = (bi[0] ** e if abs(bi[0]) != S.INF else bi[0], bi[1] ** e if abs(bi[1]) != S.INF else bi[1])
                else:
                    if bi[0] > 0:
                        i = (0 if bi[1] == S.INF else 1 / Q(bi[1]), 1 / Q(bi[0]))
                    elif bi[1] < 0:
                        i = (1 / Q(bi[1]), 0 if bi[0] == -S.INF else 1 / Q(bi[0]))
                    else:
                        return -S.INF, S.INF
                    p = (1, 1)
                    for _ in range(-e):
                        p = _iv_mul(p, i)
                a = _iv_mul(a, p)
            l2 = lo + a[0] if not (abs(lo) == S.INF or abs(a[0]) == S.INF) else -S.INF
            h2 = hi + a[1] if not (abs(hi) == S.INF or abs(a[1]) == S.INF) else S.INF
            lo, hi = l2, h2
        return lo, hi

    def base_possible(self, b):
        r = self.sign.get(b.id)
        if r is not None:
            return r
        lo, hi = self.interval(b)
        s = set()
        if lo < 0:
            s.add(-1)
        if lo <= 0 <= hi:
            s.add(0)
        if hi > 0:
            s.add(1)
        if b.kind == "fn" and b.name.startswith("exp"):
            s = {1}
        r = frozenset(s)
        if b.kind == "sqrt" and 0 in r and len(b.args) == 2:
            c, m = b.args
            if not any(k == b.id for k, _ in m) and 0 not in self.mono_possible(c, m):
                r = frozenset((1,))
        if b.kind == "poly":
            f = self.poly_sign_hint(b)
            r = r & f or r
        return r

    def poly_sign_hint(self, b):
        """sign from term signs under the current path (all terms of one sign)"""
        neg = pos = False
        allnz = False
        for m, c in b.poly.items():
            poss = self.mono_possible(c, m)
            if -1 in poss:
                neg = True
            if 1 in poss:
                pos = True
            if 0 not in poss:
                allnz = True
            if neg and pos:
                return self.sos_hint(b)
        s = set()
        if neg:
            s.add(-1)
        if pos:
            s.add(1)
        if not allnz:
            s.add(0)
        return frozenset(s)

    def sos_hint(self, b):
        """polynomials that are (minus) a sum of squares"""
        if b.extra is None:
            b.extra = {}
        if "sos" not in b.extra:
            r = ALL
            for sg in (1, -1):
                k = sum_of_squares(b.poly, sg)
                if k:
                    r = frozenset((sg,)) if k == 2 else frozenset((0, sg))
                    break
            b.extra["sos"] = r
        return b.extra["sos"]

    def mono_possible(self, c, m):
        poss = {1 if c > 0 else -1}
        for k, e in m:
            b = S.T.bases[k]
            bs = self.base_possible(b)
            if e < 0:
                bs = bs - {0}
            if e % 2 == 0:
                bs = frozenset(x * x for x in bs)
            poss = {p * q for p in poss for q in bs}
        return poss

    def sign_in(self, c, m, want):
        while True:
            poss = self.mono_possible(c, m)
            if poss <= want:
                return True
            if not (poss & want):
                return False
            # undetermined bases
            und = []
            cur = 1 if c > 0 else -1
            for k, e in m:
                b = S.T.bases[k]
                bs = self.base_possible(b)
                if e < 0:
                    bs = bs - {0}
                eff = frozenset(x * x for x in bs) if e % 2 == 0 else bs
                if len(eff) > 1:
                    und.append((b, e, bs))
                else:
                    cur *= next(iter(eff))
            if len(und) == 1:
                b, e, bs = und[0]
                yes = frozenset(x for x in bs if (cur * (x * x if e % 2 == 0 else x)) in want)
                no = bs - yes
                return self.decide(b, [yes, no]) == 0
            b, e, bs = und[0]
            if want == frozenset((0,)) or want == frozenset((-1, 1)) or e % 2 == 0:
                opts = [bs - {0}, bs & {0}]
            else:
                opts = [frozenset((x,)) for x in (1, -1, 0) if x in bs]
            opts = [o for o in opts if o]
            self.decide(b, opts)

    def known_signs(self, s):
        """possible signs of a Sym on this path, without forking"""
        x = s.single()
        if x is None:
            return frozenset((0,))
        return frozenset(self.mono_possible(*x))

    def angle_ok(self, A):
        try:
            iv = self.interval_terms(A.t)
            if abs(iv[0]) < 26 and abs(iv[1]) < 26:
                return True
            p = S.PI()
            return 1 not in self.known_signs(A - p) and not ({-1, 0} & self.known_signs(A + p))
        except TooBig:
            return False

    def decide(self, b, options):
        """fork on the sign set of base b"""
        options = [o for o in options if o]
        pos = len(self.trace)
        if pos < len(self.prefix):
            i = self.prefix[pos]
            self.trace.append(i)
            if i >= len(options):
                raise Unsupported("non-deterministic replay")
            self.set_sign(b, options[i])
            return i if len(options) > 1 else 0
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit")
        feas = []
        sg = self.base_signs(b)
        for i, o in enumerate(options):
            ok = False
            msk = self.alive & np.isin(sg, list(o))
            if msk.any():
                ok = True
            else:
                r = self.check_sign(b, o)
                ok = r != "unsat"
            if ok:
                feas.append(i)
        if not feas:
            raise Infeasible()
        i = feas[0]
        for j in feas[1:]:
            self.alts.append((pos, j))
        self.trace.append(i)
        self.set_sign(b, options[i])
        return i

    def set_sign(self, b, o):
        cur = self.base_possible(b)
        n = cur & o
        if not n:
            raise Infeasible()
        self.sign[b.id] = n
        self.alive = self.alive & np.isin(self.base_signs(b), list(o))

    def assume_sign(self, s, want):
        """add sign(s) in want to the path without forking (prune when impossible)"""
        try:
            x = s.single()
        except TooBig:
            raise Unsupported("assumption too large")
        if x is None:
            if 0 not in want:
                raise Infeasible()
            return
        if not S.sign_in(s, set(want)):
            raise Infeasible()

    def know(self, s, want):
        """record a fact that is true anyway (no fork; dropped if it cannot be recorded on one base)"""
        try:
            x = s.single()
        except TooBig:
            return
        if x is None:
            return
        c, m = x
        und = []
        cur = 1 if c > 0 else -1
        for k, ex in m:
            b = S.T.bases[k]
            bs = self.base_possible(b)
            if ex < 0:
                bs = bs - {0}
            eff = frozenset(v * v for v in bs) if ex % 2 == 0 else bs
            if len(eff) > 1:
                und.append((b, ex, bs))
            elif eff:
                cur *= next(iter(eff))
        if len(und) == 1:
            b, ex, bs = und[0]
            yes = frozenset(v for v in bs if (cur * (v * v if ex % 2 == 0 else v)) in want)
            if yes:
                self.set_sign(b, yes)

    def assume_nonzero(self, s):
        x = s.single()
        if x is None:
            raise Infeasible()
        for k, e in x[1]:
            b = S.T.bases[k]
            n = self.base_possible(b) - {0}
            if not n:
                raise Infeasible()
            self.set_sign(b, n)

    # ------------------------------------------------------------ derived atoms
    def floor_atom(self, x):
        return self._int_atom("floor", x)

    def round_atom(self, x):
        return self._int_atom("round", x)

    def _int_atom(self, kind, x):
        a = x.simp() if len(x.t) > 1 else x
        key = ("int", kind, frozenset(a.t.items()))
        iv = self.interval_terms(x.t)
        lo = None if iv[0] == -S.INF else math.floor(iv[0])
        hi = None if iv[1] == S.INF else math.ceil(iv[1])
        b = S.T.intern(key, lambda: S.Base("var", "%s%d" % (kind, len(S.T.bases)), lo=lo, hi=hi, integer=True, extra=(kind, x)))
        r = Sym.base(b)
        if kind == "floor":
            self.assume_bases(x - r, (0, 1))
            self.assume_bases(r + 1 - x, (1,))
        else:
            self.assume_bases(x - r + Q(1, 2), (0, 1))
            self.assume_bases(r - x + Q(1, 2), (0, 1))
        return r

    def assume_bases(self, s, want):
        """definitional fact (true by construction): record sign if it has one undetermined base, else as z3 fact"""
        x = s.single()
        if x is None or not x[1]:
            return
        c, m = x
        if len(m) == 1 and m[0][1] == 1:
            b = S.T.bases[m[0][0]]
            o = frozenset(w if c > 0 else -w for w in want)
            n = self.base_possible(b) & o
            if n:
                self.sign[b.id] = n
            return
        e = self.z_sym(s)
        f = {(0, 1): e >= 0, (1,): e > 0, (0,): e == 0}[tuple(want)]
        self.facts.append((f, self.bases_of(s)))

    def inv_facts(self, b, name, args, lo, hi):
        A = Sym.base(b)
        p = S.PI()
        self.assume_bases(A - p * lo, (0, 1))
        self.assume_bases(p * hi - A, (0, 1))
        zA = self.z_base(b)
        zy = self.z_sym(args[0])
        bs = self.bases_of(args[0]) | {b.id}
        f = [z3.And((zA > 0) == (zy > 0), (zA < 0) == (zy < 0))] if name != "atan2" else []
        if name == "atan2":
            f.append(z3.Implies(zy > 0, zA > 0))
            f.append(z3.Implies(zy < 0, zA < 0))
        self.facts.append((z3.And(*f), bs))
        sy = self.known_signs(args[0])
        if sy <= {1} or sy <= {-1}:
            self.sign[b.id] = self.base_possible(b) & sy or self.base_possible(b)
        if name == "atan2":
            sx = self.known_signs(args[1])
            if sx <= {1}:
                self.assume_bases(A + p * Q(1, 2), (1,))
                self.assume_bases(p * Q(1, 2) - A, (1,))
            elif sx <= {-1}:
                if sy <= {1}:
                    self.assume_bases(A - p * Q(1, 2), (1,))
                elif sy <= {-1}:
                    self.assume_bases(-A - p * Q(1, 2), (1,))

    def exp_facts(self, b, x):
        e = self.z_base(b)
        zx = self.z_sym(x)
        self.facts.append((z3.And(e > 0, (e > 1) == (zx > 0), (e < 1) == (zx < 0)), self.bases_of(x) | {b.id}))
        self.sign[b.id] = frozenset((1,))
        # e - 1 has the sign of x
        ks = self.known_signs(x)
        d = (Sym.base(b) - 1).single()
        if ks in (frozenset((1,)), frozenset((-1,)), frozenset((0,))):
            bb = S.T.bases[d[1][0][0]]
            self.sign[bb.id] = ks

    def log_facts(self, b, x):
        l = self.z_base(b)
        zx = self.z_sym(x)
        self.facts.append((z3.And((l > 0) == (zx > 1), (l < 0) == (zx < 1)), self.bases_of(x) | {b.id}))

    # ------------------------------------------------------------ z3
    def bases_of(self, s):
        out = set()
        for m in s.t:
            for k, _ in m:
                out.add(k)
        return out

    def closure(self, ids):
        """atoms needed (transitively through definitions)"""
        seen = set()
        st = list(ids)
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            b = S.T.bases[k]
            if b.poly is not None:
                for m in b.poly:
                    for kk, _ in m:
                        st.append(kk)
            if b.kind in ("sin", "cos"):
                st.append(b.extra.id)
            if b.kind == "var" and isinstance(b.extra, tuple):
                st.extend(self.bases_of(b.extra[1]))
        return seen

    def z_base(self, b):
        z = self.zcache.get(b.id)
        if z is not None:
            return z
        if b.kind == "poly":
            z = self.z_poly(b.poly)
        elif b.integer:
            z = z3.ToReal(z3.Int("%s!%d" % (b.name, b.id)))
        else:
            z = z3.Real("%s!%d" % (b.name, b.id))
        self.zcache[b.id] = z
        return z

    def z_num(self, c):
        c = Q(c)
        return z3.RatVal(c.numerator, c.denominator)

    def z_poly(self, p):
        ts = []
        for m, c in p.items():
            f = []
            if c != 1 or not m:
                f.append(self.z_num(c))
            for k, e in m:
                zb = self.z_base(S.T.bases[k])
                for _ in range(abs(e)):
                    f.append(zb if e > 0 else 1 / zb)
            t = f[0]
            for x in f[1:]:
                t = t * x
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def z_sym(self, s):
        if not s.t:
            return z3.RealVal(0)
        return self.z_poly(s.t)

    def z_signset(self, b, o):
        e = self.z_base(b)
        o = frozenset(o)
        if o == {1}:
            return e > 0
        if o == {-1}:
            return e < 0
        if o == {0}:
            return e == 0
        if o == {0, 1}:
            return e >= 0
        if o == {-1, 0}:
            return e <= 0
        if o == {-1, 1}:
            return e != 0
        return z3.BoolVal(True)

    def side(self, ids):
        """definitions of the atoms in ids"""
        out = []
        seen = set()
        for k in ids:
            b = S.T.bases[k]
            if b.kind == "poly":
                continue
            z = self.z_base(b)
            if b.lo is not None and b.kind not in ("sin", "cos") or (b.kind in ("sin", "cos") and b.lo not in (None, -1)):
                out.append(z >= self.z_num(b.lo))
            if b.hi is not None and b.kind not in ("sin", "cos") or (b.kind in ("sin", "cos") and b.hi not in (None, 1)):
                out.append(z <= self.z_num(b.hi))
            if b.kind in ("sin", "cos"):
                pr = (min(k, b.extra.id), "tr")
                if pr not in seen:
                    seen.add(pr)
                    o = self.z_base(b.extra)
                    out.append(z * z + o * o == 1)
            elif b.kind == "sqrt":
                out.append(z * z == self.z_poly(b.poly))
            elif b.kind == "var" and isinstance(b.extra, tuple):
                x = self.z_sym(b.extra[1])
                if b.extra[0] == "floor":
                    out.append(z3.And(z <= x, x < z + 1))
                else:
                    h = z3.RatVal(1, 2)
                    out.append(z3.And(x - z <= h, z - x <= h))
        return out

    def path_constraints(self, focus=None):
        """(constraints, ids).  With focus: only constraints sharing atoms (transitively)"""
        items = []
        for k, o in self.sign.items():
            b = S.T.bases[k]
            if o == ALL:
                continue
            items.append((self.z_signset(b, o), self.closure([k])))
        for f, bs in self.facts:
            items.append((f, self.closure(bs)))
        if focus is None:
            ids = set()
            for _, c in items:
                ids |= c
            return [f for f, _ in items], ids
        ids = self.closure(focus)
        out = []
        pend = items
        ch = True
        while ch:
            ch = False
            rest = []
            for f, c in pend:
                if (c & ids) - {S.T.PI.id}:
                    out.append(f)
                    ids |= c
                    ch = True
                else:
                    rest.append((f, c))
            pend = rest
        return out, ids

    def run_solver(self, cons, ms, model=False):
        t = time.time()
        res = "unknown"
        mdl = None
        for kind in ("default", "nlsat"):
            if kind == "default":
                s = z3.Solver()
                s.set("timeout", int(ms if not model else ms))
            else:
                if any(self._has_int(c) for c in cons):
                    break
                s = z3.Tactic("qfnra-nlsat").solver()
                s.set("timeout", int(ms))
            for c in cons:
                s.add(c)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat:
                res = "sat"
                mdl = s.model()
                break
        self.stats.solver_s += time.time() - t
        return res, mdl

    def _has_int(self, c):
        return "floor" in str(c.sexpr()) or "round" in str(c.sexpr()) or "to_real" in c.sexpr()

    def check_sign(self, b, o):
        if not self.feas_ms:             # every combination of signs is explored, possible or not
            return "unknown"
        self.stats.feas_queries += 1
        cons, ids = self.path_constraints(focus=[b.id])
        g = self.z_signset(b, o)
        r, _ = self.run_solver(cons + self.side(ids) + [g], self.feas_ms)
        return r

    # ------------------------------------------------------------ obligations
    def model_to_assign(self, mdl):
        """z3 model -> input assignment"""
        out = {}
        done = set()
        zv = lambda b: _zval(mdl.eval(self.z_base(b), model_completion=False))
        # angle variables from their sin / cos
        for b in S.T.bases:
            if b.kind == "sin":
                a = b.args[0]
                if len(a.t) == 1:
                    (m, c), = a.t.items()
                    vs = [k for k, e in m if S.T.bases[k].kind == "var"]
                    if len(vs) == 1 and len(m) == 2 and (T_pi(), 1) in m:
                        s, co = zv(b), zv(b.extra)
                        if s is None or co is None:
                            continue
                        v = S.T.bases[vs[0]]
                        g = float(c) * 180        # granularity
                        ang = math.degrees(math.atan2(s, co)) / g
                        lo = float(v.lo) if v.lo is not None else -1e9
                        hi = float(v.hi) if v.hi is not None else 1e9
                        want = zv(v)
                        per = 360.0 / g
                        best = None
                        for n in range(-6, 7):
                            x = ang + n * per
                            if lo <= x <= hi:
                                d = abs(x - want) if want is not None else abs(x)
                                if best is None or d < best[0]:
                                    best = (d, x)
                        if best:
                            out[v.name] = best[1]
        for b in S.T.bases:
            if b.kind == "var" and not isinstance(b.extra, tuple) and b.name not in out:
                v = zv(b)
                if v is not None:
                    out[b.name] = v
        return out

    def sample_assign(self, i):
        out = {}
        for b in S.T.bases:
            if b.kind == "var" and not isinstance(b.extra, tuple):
                out[b.name] = float(self.sample(b)[i])
        return out

    def path_witness(self):
        al = np.nonzero(self.alive)[0]
        if len(al):
            return [self.sample_assign(int(i)) for i in al[:2]]
        if not self.feas_ms:
            return []
        # ask the solver
        cons, ids = self.path_constraints()
        self.stats.feas_queries += 1
        r, m = self.run_solver(cons + self.side(ids), self.feas_ms * 2)
        if r == "unsat":
            return None
        if r == "sat":
            a = self.sample_assign(0)
            a.update(self.model_to_assign(m))
            inner = self.interior(ids)
            if inner:
                r, m = self.run_solver(cons + self.side(ids) + inner, self.feas_ms * 2)
                if r == "sat":
                    b = self.sample_assign(0)
                    b.update(self.model_to_assign(m))
                    return [b, a]
            return [a]
        return []

    def subst_zero(self, s):
        """drop terms containing a base that is zero on this path"""
        z = {k for k, o in self.sign.items() if o == {0}}
        if not z:
            return s
        zz = {k for k in z if S.T.bases[k].kind != "poly"}
        p = dict(s.t)
        out = {}
        for m, c in p.items():
            if any(k in z and e > 0 for k, e in m):
                continue
            out[m] = c
        s = Sym(out)
        if zz:
            # substitute inside composite polynomials too
            out2 = Sym({})
            for m, c in s.t.items():
                t = Sym.const(c)
                for k, e in m:
                    b = S.T.bases[k]
                    if b.kind == "poly" and any(kk in zz for mm in b.poly for kk, _ in mm):
                        q = Sym({mm: cc for mm, cc in b.poly.items() if not any(kk in zz for kk, _ in mm)})
                        if not q.t:
                            if e > 0:
                                t = Sym({})
                                break
                            return s
                        f = q
                        f = f.simp()
                        if not f.t:
                            if e > 0:
                                t = Sym({})
                                break
                            return s
                        (fm, fc), = f.t.items()
                        f = Sym({S.mono_pow(fm, e): S.nrm(Q(fc) ** e)})
                    else:
                        f = Sym({((k, e),): 1})
                    t = t * f
                out2 = out2 + t
            s = out2
        # linear equalities: base poly == 0 with a plain variable of constant coefficient
        return s

    def prove_sign(self, label, s, want, tol=None):
        """obligation: sign(s) in want on this path (s: Sym)"""
        self.stats.obligations += 1
        try:
            x = s.single()
        except TooBig:
            x = False
        if x is None:
            ok = 0 in want
            self.stats.trivial += 1
            if ok:
                # the encoding reduced the assertion to 0 = 0
                self.stats.queries += 1
                self.z_false(z3.RealVal(0) != 0)
                self.raw_cross(s)
                return True
            return self.fail(label, s, want, None)
        if x is not False:
            poss = frozenset(self.mono_possible(*x))
            if poss <= want:
                self.stats.queries += 1
                self.stats.trivial += 1
                self.z_false(self.z_term_not(x, want, None))
                return True
        s2 = self.subst_zero(s)
        try:
            x2 = s2.single()
            if x2 is None and 0 in want:
                self.stats.queries += 1
                self.stats.unsat += 1
                return True
            if x2 is not None:
                poss = frozenset(self.mono_possible(*x2))
                if poss <= want:
                    self.stats.queries += 1
                    self.stats.unsat += 1
                    return True
        except TooBig:
            pass
        # quick numeric refutation on live samples
        v = self.eval(s)
        sc = np.maximum(self.scale(s), 1e-30)
        with np.errstate(all="ignore"):
            bad = self.alive & np.isfinite(v) & ~self._sat_num(v, sc, want)
        cands = [self.sample_assign(int(i)) for i in np.nonzero(bad)[0][:6]]
        # solver query: path and not property
        focus = self.bases_of(s)
        cons, ids = self.path_constraints(focus=focus)
        if x is not False and x is not None:
            neg = self.z_term_not(x, want, ids)
        else:
            zz = self.z_sym(s)
            neg = z3.Not(z3.Or([{1: zz > 0, 0: zz == 0, -1: zz < 0}[w] for w in want]))
        self.stats.queries += 1
        ms = self.prove_ms if not cands else min(self.prove_ms, 2000)
        r, m = self.run_solver(cons + self.side(self.closure(ids | focus)) + [neg], ms, model=True)
        if r == "unsat" and not cands:
            self.stats.unsat += 1
            return True
        if r == "sat":
            self.stats.sat += 1
            a = self.sample_assign(0)
            a.update(self.model_to_assign(m))
            cands.append(a)
            # a second model away from the ties of rounding, where floating point numbers decide as real ones
            inner = self.interior(self.closure(ids | focus))
            if inner:
                r2, m = self.run_solver(cons + self.side(self.closure(ids | focus)) + [neg] + inner, ms, model=True)
                if r2 == "sat":
                    a = self.sample_assign(0)
                    a.update(self.model_to_assign(m))
                    cands.insert(0, a)
        if cands:
            return self.fail(label, s, want, cands, solver=r)
        self.stats.unknown += 1
        # reduced bound: pin variables to concrete values and ask again
        if self.reduced_proof(s, x, want):
            self.stats.reduced += 1
            self.notes.add("reduced-bound:" + label)
            return True
        self.undecided.append(dict(label=label, path=list(self.trace)))
        return None

    def interior(self, ids):
        out = []
        for k in ids:
            b = S.T.bases[k]
            if b.kind == "var" and isinstance(b.extra, tuple) and b.extra[0] in ("floor", "round"):
                d = self.z_sym(b.extra[1]) - self.z_base(b)
                lo, hi = ("-49/100", "49/100") if b.extra[0] == "round" else ("1/1000000000", "999999999/1000000000")
                out += [d >= z3.RealVal(lo), d <= z3.RealVal(hi)]
        return out

    def z_false(self, q):
        """submit an obligation whose negation the encoder reduced to a propositional form"""
        if getattr(self, "_zf", None) is None:
            self._zf = z3.Solver()
        self._zf.push()
        self._zf.add(q)
        t = time.time()
        r = self._zf.check()
        self.stats.solver_s += time.time() - t
        self._zf.pop()
        if r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.contradicted = "propositional residue not unsat"

    def raw_cross(self, s):
        """give the solver the unreduced difference for a bounded number of obligations per harness;
        a model would contradict the encoder's rewriting"""
        if self.stats.raw_confirmed + self.stats.raw_unknown >= 12 or len(s.t) < 2:
            return
        ids = self.closure(self.bases_of(s))
        if any(S.T.bases[k].integer for k in ids):
            return
        zs = self.z_sym(s)
        dens = [self.z_base(S.T.bases[k]) != 0 for m in s.t for k, e in m if e < 0]
        r, m = self.run_solver(self.side(ids) + dens + [zs != 0], 150)
        if r == "unsat":
            self.stats.raw_confirmed += 1
        elif r == "sat":
            self.stats.contradicted = "raw difference satisfiable: %s" % S.pretty(s)[:200]
        else:
            self.stats.raw_unknown += 1

    def _sat_num(self, v, sc, want):
        eps = 1e-7
        z = np.abs(v) <= eps * sc
        ok = np.zeros(len(v), dtype=bool)
        if 0 in want:
            ok |= z
        if 1 in want:
            ok |= v > 0
        if -1 in want:
            ok |= v < 0
        return ok

    def z_term_not(self, x, want, ids):
        """negation of sign(c*prod base^e) in want, as a boolean over base signs"""
        c, m = x
        cs = 1 if c > 0 else -1
        neg_want = ALL - frozenset(want)
        opts = []
        per = []
        for k, e in m:
            b = S.T.bases[k]
            bs = self.base_possible(b)
            if e < 0:
                bs = bs - {0}
            per.append([(b, e, sg) for sg in sorted(bs)])
        n = 1
        for p in per:
            n *= len(p)
        if n > 243:
            zz = self.z_sym(Sym({m: c}))
            return z3.Not(z3.Or([{1: zz > 0, 0: zz == 0, -1: zz < 0}[w] for w in want]))
        for combo in itertools.product(*per):
            t = cs
            for b, e, sg in combo:
                t *= sg if e % 2 else sg * sg
            if t in neg_want:
                opts.append(z3.And([self.z_signset(b, {sg}) for b, e, sg in combo]))
        return z3.Or(opts) if opts else z3.BoolVal(False)

    def reduced_proof(self, s, x, want):
        """same query with angles pinned to rational points of the unit circle"""
        pts = [(Q(3, 5), Q(4, 5)), (Q(-5, 13), Q(12, 13)), (Q(8, 17), Q(-15, 17))]
        focus = self.bases_of(s)
        cons, ids = self.path_constraints(focus=focus)
        ids = self.closure(ids | focus)
        sins = sorted(k for k in ids if S.T.bases[k].kind == "sin")
        vars_ = sorted(k for k in ids if S.T.bases[k].kind == "var" and not S.T.bases[k].integer)
        if x is not False and x is not None:
            neg = self.z_term_not(x, want, ids)
        else:
            zz = self.z_sym(s)
            neg = z3.Not(z3.Or([{1: zz > 0, 0: zz == 0, -1: zz < 0}[w] for w in want]))
        base = cons + self.side(ids) + [neg]
        got = 0
        rng = random.Random(self.seed)
        for t in range(3):
            pin = []
            for j, k in enumerate(sins):
                p = pts[(t + j) % 3]
                b = S.T.bases[k]
                pin.append(self.z_base(b) == self.z_num(p[0]))
                pin.append(self.z_base(b.extra) == self.z_num(p[1]))
            for frac in (0.0, 0.5, 0.8):
                pv = []
                al = np.nonzero(self.alive)[0]
                for k in vars_:
                    if rng.random() < frac:
                        i = int(al[t % len(al)]) if len(al) else t
                        pv.append(self.z_base(S.T.bases[k]) == self.z_num(Q(round(float(self.sample(S.T.bases[k])[i]), 3)).limit_denominator(1000)))
                r, m = self.run_solver(base + pin + pv, 1500)
                self.stats.queries += 1
                if r == "unsat":
                    got += 1
                    break
                if r == "sat":
                    return False
        return got >= 2

    def fail(self, label, s, want, cands, solver=None):
        self.path_failed = True
        if cands is None:
            w = self.path_witness()
            cands = w or []
        self.failures.append(dict(label=label, cands=cands, solver=solver, expr=S.pretty(s)[:300], path=list(self.trace)))
        return False

    def fail_here(self, label, info=""):
        """the path itself violates the property (e.g. wrong exception, NaN)"""
        self.stats.obligations += 1
        self.stats.queries += 1
        w = self.path_witness()
        if w is None:
            self.stats.unsat += 1
            raise Infeasible()
        self.stats.sat += 1
        self.path_failed = True
        self.failures.append(dict(label=label, cands=w, solver="path", expr=str(info)[:300], path=list(self.trace)))


def T_pi():
    return S.T.PI.id


def _zval(v):
    if v is None:
        return None
    try:
        if z3.is_rational_value(v):
            return float(Q(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return float(Q(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        return None
    return None
