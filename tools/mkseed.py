"""Planted bugs: writes seeded/<id>/ from tools/seeds/*.py and verifies each in scratch copies.
usage: mkseed.py ID...  [--no-tests]   (ids may be prefixes; default all unverified)"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, file, old, new, demo, needs, breaks, more=()):
    SEEDS[id] = dict(id=id, prop=prop, edits=[(file, old, new), *more], demo=demo, needs=needs, breaks=breaks)


for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))

DEMO = '''#!/bin/bash
# run with cwd = the repository
. /opt/vp/env.sh
export PYTHONPATH="$PWD:/opt/vp/compat"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
PRE = "import logging\nimport warnings\n\nimport reagent_compat  # noqa\n\nlogging.disable(logging.CRITICAL)\nwarnings.simplefilter('ignore')\n"


def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ, **(env or {}))
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def make(s, tests=True):
    w = f"/tmp/seedwork/{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    sh(f"cp -a {os.environ.get("SEED_REPO", "/repo")} {w}", "/")
    sh("git checkout -q -- .", w)
    out = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    open(f"{out}/demo.py", "w").write(PRE + s["demo"].lstrip("\n"))
    open(f"{out}/demo.sh", "w").write(DEMO)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    res = {"id": s["id"]}
    rc, o = sh(f"bash {out}/demo.sh", w)
    res["demo_clean"] = rc
    if rc:
        res["out"] = o[-1500:]
    for file, old, new in s["edits"]:
        p = os.path.join(w, file)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], file, t.count(old))
        open(p, "w").write(t.replace(old, new))
    rc, diff = sh("git diff", w)
    open(f"{out}/patch.diff", "w").write(diff)
    rc, o = sh(f"bash {out}/demo.sh", w)
    res["demo_bug"] = rc
    res["demo_tail"] = o[-200:]
    shutil.copytree(ROOT, w + "_verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"), dirs_exist_ok=True)
    t0 = time.time()
    rc, o = sh(f"./check {s['prop']}", w + "_verif", {"VF_REPO": w, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    res["check"] = rc
    res["check_out"] = [l for l in o.splitlines() if "VIOLATION" in l or "failed obl" in l][:6] or o[-300:]
    res["check_s"] = round(time.time() - t0)
    if tests:
        rc, o = sh(". /opt/vp/env.sh; export PYTHONPATH=%s:/opt/vp/compat; /opt/venv/bin/python -m pytest -o addopts= -q -p no:cacheprovider -p reagent_compat -n 3 --timeout=300 --continue-on-collection-errors --tb=no -o junit_family=xunit2 --junitxml=%s/junit.xml; python3 /opt/vp/results.py %s/OUT.json junit:%s/junit.xml" % ((w,) * 4), w, timeout=1800)
        try:
            ok = set(json.load(open(f"{w}/OUT.json"))["passed"])
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res["tests_broken"] = sorted(base - ok)[:5]
        except Exception as ex:
            res["tests_broken"] = [repr(ex), o[-300:]]
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(w + "_verif", ignore_errors=True)
    good = res["demo_clean"] == 0 and res["demo_bug"] != 0 and res["check"] == 1 and not res.get("tests_broken")
    res["good"] = good
    return res


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = [i for i in SEEDS if (any(i.startswith(a) for a in args) if args else not os.path.exists(f"{ROOT}/seeded/{i}/patch.diff"))]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
        def safe(i):
            try:
                return make(SEEDS[i], "--no-tests" not in sys.argv)
            except Exception as ex:
                return {"id": i, "good": False, "error": repr(ex)}

        for r in ex.map(safe, ids):
            if "--no-tests" not in sys.argv:
                sp = os.path.join(ROOT, "tools", "seeds", "status.json")
                st = json.load(open(sp)) if os.path.exists(sp) else {}
                st[r["id"]] = {k: r.get(k) for k in ("good", "check", "check_s", "tests_broken", "check_out")}
                json.dump(st, open(sp, "w"), indent=1)
            print(("OK   " if r["good"] else "BAD  ") + r["id"], json.dumps({k: v for k, v in r.items() if k != "id"}), flush=True)
