"""C21: Metropolis sampling."""
import numpy as np
from .common import *
from .rand import draws

META = dict(bounds="function level: 1 to 2 parameters, 2 to 4 iterations (thorough: 5) with every random draw, log-probability and start value symbolic, ranges none, finite, one-sided or mixed, step a number or one per parameter, burn-in as number or fraction, "
                   "zero-probability proposals; adaptation of the step width: 202 iterations whose first 200 have concrete outcomes (acceptance rates 0 to 1); camera level: up to two camera parameters and one additional parameter, 3 iterations",
            stubs=["np.random and scipy's norm, uniform, truncnorm draw from symbolic variables; a truncated normal draw is any value between its bounds"],
            assumptions=["start values are inside the ranges", "the distribution of the draws is not checked, only their use"])


class Prob:
    """a log-probability with a new symbolic value for every evaluation; records what was evaluated"""

    def __init__(self, ctx, special=()):
        self.ctx, self.special, self.calls = ctx, dict(special), []

    def __call__(self, position):
        i = len(self.calls)
        v = self.special[i] if i in self.special else self.ctx.real("L%d" % i, -50, 0)
        if not self.ctx.symbolic and self.calls and np.isfinite(v):
            pass
        self.calls.append((list(position), v))
        return v


def ranges_of(ctx, kinds):
    out = []
    for i, k in enumerate(kinds):
        lo = ctx.real("lo%d" % i, -100, 0) if k in ("both", "lower") else None
        hi = ctx.real("hi%d" % i, 1, 100) if k in ("both", "upper") else None
        out.append([lo, hi])
    return out


def start_of(ctx, kinds, R):
    out = []
    for i, (lo, hi) in enumerate(R):
        if lo is not None and hi is not None:
            out.append(lo + (hi - lo) * ctx.real("s%d" % i, 0, 1))
        elif lo is not None:
            out.append(lo + ctx.real("s%d" % i, 0, 10))
        elif hi is not None:
            out.append(hi - ctx.real("s%d" % i, 0, 10))
        else:
            out.append(ctx.real("s%d" % i, -10, 10))
    return out


def check_ranges(ctx, pos, R, label):
    for x, (lo, hi) in zip(pos, R):
        if lo is not None:
            ctx.ge0(label, x - lo + (0 if ctx.symbolic else 1e-9 * (1 + abs(lo))))
        if hi is not None:
            ctx.ge0(label, hi - x + (0 if ctx.symbolic else 1e-9 * (1 + abs(hi))))


def check_chain(ctx, P, src, trace, iterations, burn, R, step, base=0):
    """the chain that follows from the evaluated positions and the uniform draws"""
    n = len(R)
    ctx.prove("one evaluation for the start and one per iteration", len(P.calls) == iterations + 1, str(len(P.calls)))
    state, prob = P.calls[0]
    chain = []
    for i in range(iterations):
        pos, p = P.calls[i + 1]
        if R is not None:
            check_ranges(ctx, pos, R, "a proposal is inside the ranges")
        u = src.us[i]
        if isinstance(p, float) and np.isinf(p):
            accept = isinstance(prob, float) and np.isinf(prob)
        elif isinstance(prob, float) and np.isinf(prob):
            accept = True
        elif p - prob >= 0:
            accept = True
        else:
            if not ctx.symbolic:
                ctx.assume(abs(u - np.exp(p - prob)) > 1e-9)
            accept = bool(u < np.exp(p - prob))
        if accept:
            state, prob = pos, p
        chain.append((state, prob))
    exp = chain[burn + 1:]
    ctx.prove("one sample per iteration after the burn-in", len(trace) == len(exp), "%d %d" % (len(trace), len(exp)))
    for got, (s, p) in zip(trace, exp):
        ctx.prove("a sample has all parameters and its probability", len(got) == n + 1)
        ctx.eq("the sample is the last accepted position", vec(ctx, list(got)[:-1]), vec(ctx, list(s)[:n]))
        if isinstance(p, float):
            ctx.prove("the probability of the sample", got[-1] == p, str(got[-1]))
        else:
            ctx.eq("the probability of the sample", got[-1], p)
        if R is not None:
            check_ranges(ctx, list(got)[:-1], R, "a sample is inside the ranges")
    return chain


def h_chain(ctx, kinds, iterations, burn=0, step="number", special=(), given=True):
    R = ranges_of(ctx, kinds)
    S = start_of(ctx, kinds, R)
    n = len(kinds)
    st = ctx.real("step", 0.01, 10) if step == "number" else vec(ctx, [ctx.real("step%d" % i, 0.01, 10) for i in range(n)])
    P = Prob(ctx, special)
    with draws(ctx) as src:
        k = dict(ranges=[list(r) for r in R]) if given else {}
        trace = ctx.ct.statistic.metropolis(P, vec(ctx, S), step=st, iterations=iterations, burn=burn, disable_bar=True, **k)
    ctx.eq("the start is evaluated first", vec(ctx, P.calls[0][0][:n]), vec(ctx, S))
    check_chain(ctx, P, src, trace, iterations, int(burn * iterations) if burn < 1 else int(burn), R, st)


def h_adapt(ctx, accepted, kinds=("both",), last=2):
    """acceptance of the first 200 iterations fixed, then symbolic"""
    R = ranges_of(ctx, kinds)
    S = start_of(ctx, kinds, R)
    st = ctx.real("step", 0.01, 10)
    first = 201

    class Q(Prob):
        def __call__(self, position):
            i = len(self.calls)
            if i < first + 1:
                # the accepted ones at the start, then impossible proposals
                v = 0.0 if i <= accepted else -np.inf
            else:
                v = ctx.real("L%d" % i, -50, -1)
            self.calls.append((list(position), v))
            return v
    P = Q(ctx)
    with draws(ctx, u=lambda i: 0.5 if i < first else ctx.real("u%d" % i, 0, 0.999999)) as src:
        old = src.trunc
        src.trunc = lambda a, b: (src.ts.append(0), 0)[1] if len(src.ts) < first * len(kinds) else old(a, b)
        trace = ctx.ct.statistic.metropolis(P, vec(ctx, S), step=st, iterations=first + last, burn=first, disable_bar=True, ranges=[list(r) for r in R])
    check_chain(ctx, P, src, trace, first + last, first, R, st)


def h_camera(ctx, names, extra, iterations=3, burn=0, step=1, start_inf=0):
    """through the camera: parameters, trace, and the most probable sample at the end"""
    from .c07 import EXT, INT, new_value, build
    ct = ctx.ct
    m = {n: new_value(ctx, n, 0) for n in EXT + INT if n != "focallength_px"}
    cam = build(ctx, "rect", "none", "thr", m)
    n = len(names) + len(extra)
    R = ranges_of(ctx, ["both"] * n)
    S = start_of(ctx, ["both"] * n, R)
    steps = [ctx.real("step%d" % i, 0.01, 10) for i in range(n)]
    with draws(ctx) as src:
        fit = []
        for i, nm in enumerate(list(names) + list(extra)):
            fit.append(ct.FitParameter(nm, lower=R[i][0], upper=R[i][1], value=S[i], step=steps[i]))
        calls = []

        def prob():
            i = len(calls)
            pos = [getattr(cam, nm) for nm in names] + [f.value[()] for f in fit[len(names):]]
            v = -np.inf if i < start_inf else ctx.real("L%d" % i, -50, 0)
            calls.append((pos, v))
            return v
        cam.addCustomoLogProbability(prob, fit[len(names):])
        trace = cam.metropolis(fit[:len(names)], step=step, iterations=iterations, burn=burn, disable_bar=True, print_trace=False)
    P = Prob(ctx)
    # the probability may be evaluated more often while looking for a possible start
    P.calls = calls[-(iterations + 1):]
    check_ranges(ctx, P.calls[0][0], R, "the start is inside the ranges")
    ctx.prove("columns of the trace", list(trace.columns) == list(names) + list(extra) + ["probability"], str(list(trace.columns)))
    rows = [list(trace.loc[i]) for i in trace.index]
    ctx.eq("the start values of the parameters are used", vec(ctx, calls[0][0]), vec(ctx, S))
    us = src.us
    src.us = us[start_inf * n:]
    check_chain(ctx, P, src, rows, iterations, burn, R, steps)
    # the most probable sample is in effect
    best = [True] * len(rows)
    for i, a in enumerate(rows):
        for j, b in enumerate(rows):
            if b[-1] > a[-1]:
                best[i] = False
    b = best.index(True)
    for i, nm in enumerate(names):
        ctx.eq("the most probable sample is in effect afterwards", getattr(cam, nm), rows[b][i])
    fresh = build(ctx, "rect", "none", "thr", dict(m, **{nm: rows[b][i] for i, nm in enumerate(names)}))
    q = vec(ctx, ctx.vec("pt", 3, -10, 10))
    ctx.eq("the camera follows", cam.orientation.cameraFromSpace(q), fresh.orientation.cameraFromSpace(q))
    for nm in m:
        if nm not in names:
            ctx.eq("other parameters are not changed", getattr(cam, nm), m[nm])
    ctx.prove("the trace is kept", cam.parameters.trace is trace)


def instances(tier):
    out = []
    add = lambda name, fn, **k: out.append(dict(name=name, fn=fn, args=k, opts=dict(max_paths=20000), nreplay=3))
    for kinds in (("both",), ("lower",), ("upper",), ("none",), ("both", "none"), ("lower", "both"), ("upper", "none")):
        for it in (2, 3) if tier == "quick" else (2, 3, 4, 5):
            add("chain-%s-%d" % ("+".join(kinds), it), h_chain, kinds=kinds, iterations=it)
    add("chain-none-given", h_chain, kinds=("none", "none"), iterations=3, given=False)
    add("chain-steps", h_chain, kinds=("both", "both"), iterations=3, step="each")
    add("chain-burn-2", h_chain, kinds=("both",), iterations=4, burn=2)
    add("chain-burn-half", h_chain, kinds=("both",), iterations=4, burn=0.5)
    add("chain-burn-0.25", h_chain, kinds=("none",), iterations=4, burn=0.25)
    for b in (1, 1.0, 3, 0.75, 0.99):
        add("chain-burn-%s" % b, h_chain, kinds=("both",), iterations=4, burn=b)
    inf = -np.inf
    for k, sp in enumerate((((1, inf),), ((0, inf),), ((0, inf), (1, inf)), ((1, inf), (2, inf)), ((2, inf),))):
        add("chain-impossible-%d" % k, h_chain, kinds=("both",), iterations=3, special=sp)
    for a in (0, 1, 20, 60, 110, 160, 201):
        add("adapt-%d" % a, h_adapt, accepted=a)
    add("adapt-2-201", h_adapt, accepted=201, kinds=("both", "lower"))
    add("camera-1", h_camera, names=("elevation_m",), extra=())
    add("camera-2", h_camera, names=("pos_x_m", "tilt_deg"), extra=())
    add("camera-1-extra", h_camera, names=("roll_deg",), extra=("sigma",))
    add("camera-step", h_camera, names=("heading_deg",), extra=(), step=0.1)
    add("camera-start", h_camera, names=("pos_y_m",), extra=("x",), start_inf=1)
    return out
