"""Worker process: symbolic exploration or concrete replay of harness instances.

Reads one JSON request per line on stdin, answers with one JSON line on the saved stdout.
"""
import contextlib
import importlib
import io
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_dumps = json.dumps
_loads = json.loads


def main():
    mode = sys.argv[1]
    modname = sys.argv[2]
    tier = sys.argv[3]
    out = os.fdopen(os.dup(1), "w")
    devnull = open(os.devnull, "w")
    os.dup2(devnull.fileno(), 1)
    sys.stdout = devnull
    import warnings
    warnings.filterwarnings("ignore")
    from engine import loader
    if mode == "symbolic":
        if VT not in sys.path:
            sys.path.append(VT)
        sys.setrecursionlimit(20000)
        ct = loader.install_symbolic()
    else:
        ct = loader.install_concrete()
    mod = importlib.import_module("harness." + modname)
    for line in sys.stdin:
        req = _loads(line)
        t = time.time()
        try:
            if mode == "symbolic":
                res = run_symbolic(mod, ct, tier, req, loader)
            else:
                res = run_concrete(mod, ct, tier, req)
        except BaseException as e:  # engine error
            if isinstance(e, KeyboardInterrupt):
                raise
            res = dict(error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))
        res["wall"] = time.time() - t
        out.write(_dumps(res, default=str) + "\n")
        out.flush()


def get_instance(mod, name, tier):
    for inst in mod.instances(tier):
        if inst["name"] == name:
            return inst
    raise KeyError(name)


def run_symbolic(mod, ct, tier, req, loader):
    from engine import sym as S
    from engine.explore import Engine
    from engine.ctx import SymCtx
    inst = get_instance(mod, req["name"], tier)
    S.full_reset()
    loader.CALLED.clear()
    opts = dict(inst.get("opts", {}))
    e = Engine(seed=req.get("seed", 1), deadline=time.time() + req.get("budget", 300), **opts)
    prof_on = [True]

    def run(eng):
        ctx = SymCtx(eng, ct, tier)
        ctx.choices = {}
        eng.ctx = ctx
        from engine import stubs
        stubs.HINTS.clear()
        if eng.stats.paths <= 2:
            loader.start_profile()
        try:
            inst["fn"](ctx, **inst.get("args", {}))
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]
            eng.fail_here("no unexpected exception", "%s: %s at %s" % (type(ex).__name__, ex, where))
        finally:
            sys.setprofile(None)
    orig_pw = e.path_witness

    def pw():
        w = orig_pw()
        return _choices(e, w)

    e.path_witness = pw
    orig_sa = e.sample_assign

    def sa(i):
        d = orig_sa(i)
        for k, v in e.ctx.choices.items():
            d["#" + k] = v
        return {k: v for k, v in d.items()}
    e.sample_assign = sa
    try:
        e.explore(run)
    finally:
        S.set_engine(None)
        sys.setprofile(None)
    st = e.stats
    fl = e.failures
    return dict(name=inst["name"], paths=st.paths, infeasible=st.infeasible, obligations=st.obligations,
                queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown, trivial=st.trivial,
                feas=st.feas_queries, solver_s=st.solver_s, reduced=st.reduced, failures=fl[:40], nfail=len(fl),
                undecided=e.undecided[:40], unsupported=sorted(set(e.unsupported))[:20], nunsup=len(e.unsupported),
                witnesses=[w for w in e.witnesses if w["assign"]][:60], nwit=len(e.witnesses),
                notes=sorted(e.notes), raw_confirmed=st.raw_confirmed, raw_unknown=st.raw_unknown, contradicted=st.contradicted, called=sorted(loader.CALLED), atoms=len(S.T.bases),
                reached=sorted({r for w in e.witnesses for r in w["reached"]}))


def _choices(e, w):
    if w is None:
        return None
    for d in w:
        for k, v in e.ctx.choices.items():
            d["#" + k] = v
    return w


def run_concrete(mod, ct, tier, req):
    from engine.ctx import ConcCtx, Violated, Skip
    inst = get_instance(mod, req["name"], tier)
    res = []
    for i, a in enumerate(req["assigns"]):
        ctx = ConcCtx(dict(a), ct, tier, seed=req.get("seed", 0) * 1000 + i)
        try:
            inst["fn"](ctx, **inst.get("args", {}))
            res.append(dict(status="ok", nob=ctx.nob, assign=ctx.a))
        except Skip:
            res.append(dict(status="skip", assign=ctx.a))
        except Violated as v:
            res.append(dict(status="violated", label=v.label, info=str(v.info)[:600], assign=ctx.a))
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            res.append(dict(status="violated", label="no unexpected exception", info="%s: %s at %s" % (
                type(ex).__name__, ex, ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]), assign=ctx.a))
    return dict(results=res)


if __name__ == "__main__":
    main()
