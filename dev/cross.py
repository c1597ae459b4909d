"""Development aid: each behaviour-preserving edit against every check that analyses the edited file."""
import glob
import json
import os
import re
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run  # noqa: E402

readers = {}
for f in glob.glob(os.path.join(run.V, "evidence", "C*.json")):
    for fn in json.load(open(f))["coverage"].get("functions", ()):
        readers.setdefault(re.search(r"\(([^:]*):", fn).group(1), set()).add(os.path.basename(f)[:-5])

jobs = []
for e in run.load():
    if e[1] == "same" and (len(sys.argv) < 2 or sys.argv[1] in e[0]):
        rest = sorted(readers.get(e[3], set()) - set(e[2].split()))
        if rest:
            jobs.append((e[0], "same", " ".join(rest)) + tuple(e[3:]))
with ThreadPoolExecutor(int(os.environ.get("WORKERS", "6"))) as ex:
    for name, kind, pids, r, txt in ex.map(run.one, jobs):
        bad = r == "NOTFOUND" or any(r)
        print("MISS" if bad else "ok  ", name, pids, r, flush=True)
        if bad:
            print("      ", txt[:1200].replace("\n", "\n       "), flush=True)
