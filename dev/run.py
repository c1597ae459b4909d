"""Development aid: apply each edit of dev/edits/*.py to a scratch copy of the
repository and report what the checks say (bug: expected exit 1, same: expected
exit 0)."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)


def load():
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, "edits"))):
        if f.endswith(".py"):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, "edits", f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            for n, e in enumerate(m.EDITS):
                out.append(("%s#%d" % (f[:-3], n),) + tuple(e))
    return out


def one(e):
    name, kind, pids, path, old, new = e[:6]
    d = tempfile.mkdtemp(prefix="fc_")
    try:
        shutil.copytree("/repo/finat", d + "/finat", ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(d, path)
        s = open(p).read()
        if s.count(old) < 1:
            return name, kind, pids, "NOTFOUND", ""
        open(p, "w").write(s.replace(old, new, 1))
        r = []
        txt = ""
        for pid in pids.split():
            env = dict(os.environ, FINATCHECK_REPO=d, FINATCHECK_EVID=d + "/ev")
            q = subprocess.run([sys.executable, "-m", "finatcheck", pid], cwd=V, env=env, capture_output=True, text=True)
            r.append(q.returncode)
            txt += "\n".join(l for l in q.stdout.splitlines() if not l.startswith("property="))[:1500] + q.stderr[-500:]
        return name, kind, pids, r, txt
    finally:
        shutil.rmtree(d)


def main():
    es = load()
    if len(sys.argv) > 1 and sys.argv[1] != "-v":
        es = [e for e in es if sys.argv[1] in e[0] or sys.argv[1] in e[2]]
    with ThreadPoolExecutor(8) as ex:
        for name, kind, pids, r, txt in ex.map(one, es):
            ok = r != "NOTFOUND" and (any(x == 1 for x in r) if kind == "bug" else all(x == 0 for x in r))
            print(("ok   " if ok else "MISS ") + name, kind, pids, r)
            if not ok or "-v" in sys.argv:
                print("      ", txt[:400].replace("\n", "\n       "))


if __name__ == "__main__":
    main()
