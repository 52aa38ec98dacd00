"""Write seeded/<id>/ from tools/seeds/*.py against the current /repo HEAD.

  seed.py write [ID...]   (re)write patch.diff, demo.sh, demo.py, meta.json
  seed.py demo  [ID...]   run each demo on a scratch copy with and without the patch
  seed.py test  [ID...]   apply all given patches to one scratch copy and run the stable tests there
  seed.py check [ID...]   apply each patch to /repo, run the check of its property, restore
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, property, file, edits, demo, what, needs="", also=()):
    SEEDS[id] = dict(property=property, file=file, edits=edits, demo=demo, what=what, needs=needs, also=also)


for f in sorted(os.listdir(os.path.join(HERE, "tools", "seeds"))):
    if f.endswith(".py"):
        exec(open(os.path.join(HERE, "tools", "seeds", f)).read())


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)


def write(i):
    s = SEEDS[i]
    d = os.path.join(HERE, "seeded", i)
    os.makedirs(d, exist_ok=True)
    rel = s["file"]
    tmp = tempfile.mkdtemp(prefix="seedw")
    try:
        sh(["git", "init", "-q", tmp])
        diff_files = {}
        for fn, edits in [(rel, s["edits"])] + list(s["also"]):
            src = sh(["git", "-C", "/repo", "show", "HEAD:" + fn]).stdout
            diff_files[fn] = (src, edits)
        for fn, (src, edits) in diff_files.items():
            p = os.path.join(tmp, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(src)
        sh(["git", "-C", tmp, "add", "-A"])
        for fn, (src, edits) in diff_files.items():
            for e in edits:
                old, new = e[0], e[1]
                cnt = e[2] if len(e) > 2 else 1
                if src.count(old) != cnt:
                    raise SystemExit("%s: text occurs %d times: %r" % (i, src.count(old), old))
                src = src.replace(old, new)
            open(os.path.join(tmp, fn), "w").write(src)
        diff = sh(["git", "-C", tmp, "diff"]).stdout
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"] or "calls that take the changed path", "what_it_breaks": s["what"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def scratch(ids, base="/tmp/seedscratch"):
    d = tempfile.mkdtemp(prefix="seedscratch", dir="/tmp")
    sh(["git", "clone", "-q", "/repo", d + "/repo"])
    for i in ids:
        r = sh(["git", "-C", d + "/repo", "apply", os.path.join(HERE, "seeded", i, "patch.diff")])
        if r.returncode:
            print(i, "patch does not apply", r.stderr)
    return d


def env_for(d):
    e = dict(os.environ)
    e["PYTHONPATH"] = d + "/repo/src"
    e["NUMBA_CACHE_DIR"] = d + "/numba"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def demo(ids):
    clean = scratch([])
    for i in ids:
        d = scratch([i])
        out = []
        for x in (clean, d):
            r = sh(["bash", os.path.join(HERE, "seeded", i, "demo.sh")], cwd=x + "/repo", env=env_for(x))
            out.append((r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]))
        good = out[0][0] == 0 and out[1][0] != 0
        print(i, "ok " if good else "BAD", out[0] if not good else "", str(out[1])[:160], flush=True)
        shutil.rmtree(d)
    shutil.rmtree(clean)


def test(ids):
    d = scratch(ids)
    e = env_for(d)
    e.update(PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/qrisp-cache/mpl", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1")
    ign = ["--ignore=tests/" + l.strip() for l in open("/opt/vp/slow_modules.txt") if l.strip()]
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", "-n", "6", "--dist", "worksteal",
            "-p", "randomly", "--randomly-seed=0", "--randomly-dont-reorganize"] + ign + ["tests"], cwd=d + "/repo", env=e, timeout=3600)
    for l in r.stdout.splitlines():
        if l.startswith(("FAILED", "ERROR")) or " passed" in l:
            print(l[:200])
    shutil.rmtree(d)


def check(ids, all_checks=False):
    assert not sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip()
    for i in ids:
        p = os.path.join(HERE, "seeded", i, "patch.diff")
        r = sh(["git", "-C", "/repo", "apply", p])
        if r.returncode:
            print(i, "does not apply", r.stderr)
            continue
        try:
            r = sh(["python3-vt", "check.py", SEEDS[i]["property"]], cwd=HERE)
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
        bad = [l for l in r.stdout.splitlines() if not l.startswith(("rule ", "HELD", "KNOWN", "VIOLATION"))]
        print(i, SEEDS[i]["property"], "CAUGHT" if r.returncode == 1 else "missed (exit %d)" % r.returncode, (bad[:1] or [""])[0][:200], flush=True)


if __name__ == "__main__":
    cmd = sys.argv[1]
    ids = sys.argv[2:] or sorted(SEEDS)
    ids = [x for a in ids for x in sorted(SEEDS) if x == a or (a.endswith("*") and x.startswith(a[:-1]))]
    if cmd == "write":
        for i in ids:
            write(i)
        print(len(ids), "written")
    else:
        {"demo": demo, "test": test, "check": check}[cmd](ids)
