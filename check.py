#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property on /repo's working tree
   check.py --replay FILE                        re-run a recorded counterexample on the real code

exit 0: held on everything explored; exit 1: VIOLATION (reproduced on the real code);
exit 2: the machinery could not answer.
"""
import argparse
import json
import os
import queue
import random
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           PYTHONHASHSEED="0")


class Worker:
    def __init__(self, mode, mod, tier):
        self.cmd = [PY, os.path.join(ROOT, "engine", "worker.py"), mode, mod, tier]
        self.p = None

    def start(self):
        self.err = open(os.devnull, "w") if not os.environ.get("VERIF_DEBUG") else None
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV, text=True, cwd=ROOT)

    def ask(self, req, timeout, again=True):
        t0 = time.time()
        if self.p is None or self.p.poll() is not None:
            self.start()
        timer = threading.Timer(timeout, self.p.kill)
        timer.start()
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        finally:
            timer.cancel()
        if not line:
            self.p.kill()
            self.p = None
            if again and time.time() - t0 < min(20, timeout / 3):
                return self.ask(req, timeout, False)
            return dict(error="worker died or timed out after %ds" % timeout, timeout=True)
        return json.loads(line)

    def close(self):
        if self.p is not None and self.p.poll() is None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


def pool_run(mode, mod, tier, reqs, nproc, timeout, deadline):
    """reqs: list of dict -> list of results (same order)"""
    q = queue.Queue()
    for i, r in enumerate(reqs):
        q.put((i, r))
    out = [None] * len(reqs)

    def loop():
        w = Worker(mode, mod, tier)
        while True:
            try:
                i, r = q.get_nowait()
            except queue.Empty:
                break
            left = deadline - time.time()
            if left < 3:
                out[i] = dict(error="no time left", timeout=True)
                continue
            r = dict(r)
            r["budget"] = min(r.get("budget", timeout), left - 2)
            out[i] = w.ask(r, min(timeout * 1.3 + 20, left))
        w.close()
    ts = [threading.Thread(target=loop) for _ in range(max(1, min(nproc, len(reqs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


def load_instances(mod, tier):
    """instance names, from a plain process (no symbolic patching needed)"""
    code = ("import sys,json;sys.path.insert(0,%r);import importlib;m=importlib.import_module('harness.%s');"
            "print(json.dumps([dict(name=i['name'],weight=i.get('weight',1),budget=i.get('budget'),nreplay=i.get('nreplay'),expect=i.get('expect')) for i in m.instances(%r)]));"
            "print(json.dumps(getattr(m,'META',{})))") % (ROOT, mod, tier)
    r = subprocess.run([PY, "-c", code], env=ENV, capture_output=True, text=True, cwd=ROOT)
    if r.returncode:
        raise RuntimeError(r.stderr[-3000:])
    lines = r.stdout.strip().splitlines()
    return json.loads(lines[-2]), json.loads(lines[-1])


def known_findings(prop):
    out = []
    f = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def is_known(kf, inst, label):
    for k in kf:
        if k.get("instance") in (None, inst) and k.get("label") == label:
            return k
    return None


def perturb(a, rng, rel=1e-3):
    out = {}
    for k, v in a.items():
        out[k] = v if k.startswith("#") else v + rel * (abs(v) if abs(v) > 1e-3 else 1.0) * rng.uniform(-1, 1)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    t0 = time.time()
    prop = args.prop
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = prop.lower()
    insts, meta = load_instances(mod, tier)
    if args.only:
        insts = [i for i in insts if args.only in i["name"]]
    cap = 760 if tier == "quick" else 3400
    deadline = t0 + cap
    per = 150 if tier == "quick" else 1500
    order = sorted(range(len(insts)), key=lambda i: -insts[i]["weight"])
    reqs = [dict(name=insts[i]["name"], budget=insts[i].get("budget") or per, seed=seed) for i in order]
    nproc = min(8, os.cpu_count() or 1)
    res = pool_run("symbolic", mod, tier, reqs, nproc, per, deadline - 60)
    # ---------------------------------------------------------- replay
    rng = random.Random(seed)
    rreqs = []
    meta_r = []
    for r, q, i in zip(res, reqs, order):
        nm = q["name"]
        cands = []
        if r.get("error"):
            cands += [dict() for _ in range(40)]
            kinds = ["random"] * 40
        else:
            kinds = []
            per_label = {}
            for f in r["failures"]:
                n = per_label.get(f["label"], 0)
                if n >= 8:
                    continue
                per_label[f["label"]] = n + 1
                for a in f["cands"][:4]:
                    cands.append(a)
                    kinds.append("failure")
                    cands.append(perturb(a, rng, 1e-2))
                    kinds.append("near-failure")
            for w in r["witnesses"]:
                for a in w["assign"][:2]:
                    cands.append(a)
                    kinds.append("witness")
            nr = insts[i].get("nreplay")
            extra = nr if nr is not None else 4
            if r["failures"] or r["undecided"] or r["unsupported"]:
                extra = max(extra, 60)
            cands += [dict() for _ in range(extra)]
            kinds += ["random"] * extra
        rreqs.append(dict(name=nm, assigns=cands, seed=seed))
        meta_r.append(kinds)
    conc = pool_run("concrete", mod, tier, rreqs, nproc, 120, deadline - 5)
    # second look at concrete-only failures: are they robust?
    violations = []
    errors = []
    stats = dict(paths=0, obligations=0, queries=0, unsat=0, sat=0, unknown=0, feas=0, solver_s=0.0, reduced=0, trivial=0,
                 raw_confirmed=0, raw_unknown=0)
    replayed = 0
    replay_ok = 0
    unrepro = []
    undecided = []
    unsupported = []
    called = set()
    samples = []
    second = []
    lost = set()        # instances without an answer
    wrong = []
    for r, q, c, kinds, rq in zip(res, reqs, conc, meta_r, rreqs):
        nm = q["name"]
        if c.get("error"):
            errors.append("%s: replay: %s" % (nm, c["error"]))
            lost.add(nm)
            results = []
        else:
            results = c["results"]
        if r.get("error"):
            unsupported.append("%s: %s" % (nm, r["error"][:600]))
            lost.add(nm)
        else:
            for k in stats:
                stats[k] += r.get(k, 0) or 0
            called |= set(r["called"])
            undecided += ["%s: %s" % (nm, u["label"]) for u in r["undecided"]]
            unsupported += ["%s: %s" % (nm, u) for u in r["unsupported"]]
            if r["paths"] and not r["reached"]:
                errors.append("%s: vacuous (no obligation reached)" % nm)
                lost.add(nm)
            if r.get("contradicted"):
                wrong.append(nm)
                errors.append("%s: rewriter contradicted by the solver: %s" % (nm, r["contradicted"]))
            if r["witnesses"] and len(samples) < 12:
                samples.append(dict(instance=nm, witness=r["witnesses"][0]["assign"][0], paths=r["paths"]))
        flabels = {f["label"] for f in r.get("failures", [])}
        found = {}
        for k, x in zip(kinds, results):
            if x["status"] == "skip":
                continue
            replayed += 1
            if x["status"] == "ok":
                replay_ok += 1
                continue
            if k in ("failure", "near-failure") or x["label"] in flabels:
                found.setdefault(x["label"], dict(instance=nm, label=x["label"], info=x["info"], assign=x["assign"], source="solver counterexample"))
            else:
                second.append((nm, x, k))
        violations += list(found.values())
        for f in r.get("failures", []):
            if not found:
                unrepro.append("%s: %s [%s] %s" % (nm, f["label"], f["solver"], f["expr"][:160]))
    if os.environ.get("DBG"):
        for nm, x, k in second: print("DBG", nm, x["label"], x["info"], x["assign"])
    # concrete-only failures: require them to persist on nearby inputs
    seen = {(v["instance"], v["label"]) for v in violations}
    todo = []
    for nm, x, k in second:
        if (nm, x["label"]) in seen:
            continue
        if sum(1 for t in todo if t[0] == nm and t[1]["label"] == x["label"]) >= 3:
            continue
        todo.append((nm, x, k))
    if todo:
        rr = [dict(name=nm, assigns=[perturb(x["assign"], rng, 1e-3) for _ in range(6)], seed=seed) for nm, x, k in todo]
        cc = pool_run("concrete", mod, tier, rr, nproc, 60, deadline)
        for (nm, x, k), c in zip(todo, cc):
            rs = [y for y in c.get("results", []) if y["status"] != "skip"]
            bad = [y for y in rs if y["status"] == "violated"]
            if rs and len(bad) * 2 > len(rs) and (nm, x["label"]) not in seen:
                seen.add((nm, x["label"]))
                violations.append(dict(instance=nm, label=x["label"], info=x["info"], assign=x["assign"], source="path-witness replay"))
    kf = known_findings(prop)
    new = []
    hit = set()
    for v in violations:
        k = is_known(kf, v["instance"], v["label"])
        if k is not None:
            hit.add(id(k))
        else:
            new.append(v)
    for k in kf:
        if id(k) in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    edir = os.path.join(ROOT, "evidence")
    rdir = os.path.join(edir, "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(new):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        v["property"] = prop
        v["tier"] = tier
        with open(path, "w") as fp:
            json.dump(v, fp, indent=1)
        v["path"] = path
    code = 1 if new else 0
    if not new:
        # no answer if the encoder failed on most of the property
        if wrong or len(lost) * 2 > len(res):
            code = 2
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="other",
              coverage=dict(
                  explanation="Bounded symbolic execution of the package's own Python source (AST-loaded from the working tree on "
                              "this run); every obligation is an SMT query 'path condition and not property' over all values of the "
                              "symbolic inputs within the stated bounds; counterexamples and one witness per path are replayed on "
                              "the unpatched package.",
                  functions_encoded=sorted(called), instances=[i["name"] for i in insts],
                  bounds=meta.get("bounds", ""), stubs=meta.get("stubs", []),
                  paths=stats["paths"], obligations=stats["obligations"],
                  queries_discharged=stats["unsat"], queries=stats["queries"], feasibility_queries=stats["feas"],
                  sat=stats["sat"], unknown=stats["unknown"], reduced_bound_queries=stats["reduced"],
                  raw_cross_checked=stats["raw_confirmed"], raw_cross_unknown=stats["raw_unknown"],
                  solver_s=round(stats["solver_s"], 3), replays=replayed, replays_ok=replay_ok,
                  undecided=sorted(set(undecided))[:60], unsupported=sorted(set(unsupported))[:60],
                  unreproduced=unrepro[:40], errors=errors[:20], samples=samples,
                  evaluations=stats["queries"], distinct_nontrivial=stats["paths"],
                  rule="one SMT query per obligation and feasible path"),
              assumptions=meta.get("assumptions", []) + ["float arithmetic is modelled as exact real arithmetic; NaN and infinities are modelled explicitly",
                                                         "solver: z3; angles are degrees, pi is a symbol bounded by 20-digit rationals"],
              wall_s=round(wall, 2), violations=len(new))
    if not args.only:
        with open(os.path.join(edir, prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
    print("%s %s: %d instances, %d paths, %d obligations (%d discharged, %d unknown), %d feasibility queries, solver %.1fs, %d/%d replays ok, wall %.1fs" % (
        prop, tier, len(insts), stats["paths"], stats["obligations"], stats["unsat"], stats["unknown"], stats["feas"], stats["solver_s"], replay_ok, replayed, wall))
    for u in sorted(set(undecided)):
        print("UNDECIDED", u)
    for u in sorted(set(unsupported))[:20]:
        print("NOT-ENCODED", u)
    for u in unrepro[:20]:
        print("UNREPRODUCED", u)
    for e in errors:
        print("ERROR", e)
    if args.v:
        for r in sorted(res, key=lambda r: -r.get("wall", 0))[:40]:
            print("   %-50s %6.1fs paths=%s obl=%s solver=%.1f" % (r.get("name"), r.get("wall", 0), r.get("paths"), r.get("obligations"), r.get("solver_s", 0) or 0))
    for v in new:
        print("  %s / %s: %s" % (v["instance"], v["label"], v["info"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
    return code


def replay(path):
    v = json.load(open(path))
    w = Worker("concrete", v["property"].lower(), v["tier"])
    r = w.ask(dict(name=v["instance"], assigns=[v["assign"]], seed=1), 120)
    w.close()
    print(json.dumps(r, indent=1))
    bad = r.get("error") or any(x["status"] == "violated" for x in r["results"])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
