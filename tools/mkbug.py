"""python3 tools/mkbug.py SPEC.py   : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; must exit non-zero when broken)
Makes seeded/<ID>/ after confirming it in a scratch copy: applies, tests pass, demo fails with / passes without."""
import json, os, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/mkbug_wt"
base = json.load(open("/opt/vp/BASELINE.json"))


def run(cmd, env=None, cwd=None):
    return subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=cwd)


def tests(cwd):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg")
    r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], env, cwd)
    return r.returncode, r.stdout[-1500:]


def main(spec):
    s = runpy.run_path(spec)
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree("/repo", WT)
    run(["git", "checkout", "--", "."], cwd=WT)
    for f, old, new in s["EDITS"]:
        p = os.path.join(WT, "cameratransform", f)
        t = open(p).read()
        if t.count(old) != 1:
            print("edit does not apply uniquely (%d): %s" % (t.count(old), old)); return 1
        open(p, "w").write(t.replace(old, new))
    diff = run(["git", "diff"], cwd=WT).stdout
    base_rev = run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=WT).stdout.split()[-1]
    orig = set(l.strip() for f, _, _ in s["EDITS"] for l in run(["git", "show", base_rev + ":cameratransform/" + f], cwd=WT).stdout.splitlines())
    removed = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if not removed or not all(l in orig for l in removed):
        print("changes lines that are not original:", [l for l in removed if l not in orig]); return 1
    d = os.path.join(ROOT, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["DEMO"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = dict(os.environ, PYTHONPATH=WT)
    a = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
    b = run(["bash", os.path.join(d, "demo.sh")], env, WT)
    rc, out = tests(WT)
    print(s["ID"], "demo clean rc", a.returncode, "broken rc", b.returncode, "tests", rc, out.strip().splitlines()[-1:])
    ok = a.returncode == 0 and b.returncode != 0 and rc == 0
    if not ok:
        print(a.stdout[-500:], a.stderr[-800:], b.stdout[-300:], b.stderr[-300:], out)
        shutil.rmtree(d)
    shutil.rmtree(WT)
    return 0 if ok else 1


if __name__ == "__main__":
    rc = 0
    for sp in sys.argv[1:]:
        rc |= main(sp)
    sys.exit(rc)
