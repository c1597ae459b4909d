"""Development aid: python3 dev/mkseed.py dev/seeds_xx.py [id ...]
Each module defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Writes seeded/<id>/ after confirming in a scratch copy that the demo passes on the
unchanged tree, fails with the patch, and the stable tests still pass; reports what the check says."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDR = '#!/bin/bash\ncd /repo 2>/dev/null || true\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="${DEMO_REPO:-/repo}" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(s):
    d = tempfile.mkdtemp(prefix="seed_")
    w = d + "/repo"
    out = []
    try:
        sh("git clone -q /repo %s" % w)
        for f, old, new in s["edits"]:
            t = open(w + "/" + f).read()
            if t.count(old) != 1:
                return s["id"], ["edit matches %d times: %r" % (t.count(old), old[:60])]
            open(w + "/" + f, "w").write(t.replace(old, new))
        patch = sh("git -C %s diff" % w).stdout
        tgt = os.path.join(V, "seeded", s["id"])
        stage = d + "/seed"
        os.makedirs(stage)
        open(stage + "/patch.diff", "w").write(patch)
        open(stage + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(stage + "/demo.sh", "w").write(HDR)
        os.chmod(stage + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(stage + "/meta.json", "w"), indent=1)
        sh("git -C %s stash -q" % w)
        a = sh("bash %s/demo.sh" % stage, env=dict(os.environ, DEMO_REPO=w))
        sh("git -C %s stash pop -q" % w)
        b = sh("bash %s/demo.sh" % stage, env=dict(os.environ, DEMO_REPO=w))
        out.append("demo clean=%d patched=%d" % (a.returncode, b.returncode))
        ok = a.returncode == 0 and b.returncode != 0
        if not ok:
            out.append((a.stderr + b.stderr + b.stdout)[-600:])
        if ok:
            t = sh("cd %s && PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider test 2>&1 | tail -5" % (w, w))
            okt = " passed" in t.stdout and "failed" not in t.stdout and "error" not in t.stdout
            out.append(t.stdout.strip().splitlines()[-1])
            if not okt:
                out.append("TESTS CATCH IT")
            else:
                if os.path.isdir(tgt):
                    shutil.rmtree(tgt)
                shutil.copytree(stage, tgt)
        q = sh("python3 -m finatcheck %s" % s["property"], cwd=V, env=dict(os.environ, FINATCHECK_REPO=w, FINATCHECK_EVID=d + "/ev"))
        out.append("CHECK %s exit=%d" % (s["property"], q.returncode))
        if q.returncode != 1:
            out.append(q.stdout[-500:])
        return s["id"], out
    finally:
        shutil.rmtree(d)


sp = importlib.util.spec_from_file_location("seeds", sys.argv[1])
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
todo = [s for s in m.SEEDS if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
with ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(one, todo):
        print(i)
        for x in o:
            print("    ", x)
