"""Development aid: every obligation must be decided (and hold) on the current tree."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted({f[:-3] for f in os.listdir(V + "/specs") if f.endswith(".py")} | {"C23"})
def one(p):
    q = subprocess.run([sys.executable, "-m", "finatcheck", p], cwd=V, capture_output=True, text=True)
    return p, q
with ThreadPoolExecutor(8) as ex:
    for p, q in ex.map(one, ids):
        for l in q.stdout.splitlines():
            if l.startswith("property=") or l.startswith("UNDECIDED") or "VIOL" in l or "BROKEN" in l or "KNOWN" in l:
                print(l[:230])
        if q.returncode:
            print("EXIT", q.returncode, q.stderr[-300:])
