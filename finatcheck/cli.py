"""Command line: python3 -m finatcheck <property> [--tier quick|thorough]"""
import json
import os
import sys
import time
import traceback

from . import check
from .terms import Blowup
from .interp import AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")
EVID = os.environ.get("FINATCHECK_EVID") or os.path.join(HERE, "evidence")

TRUSTED = ["the transfer functions of finatcheck for Python built-ins, itertools, numpy and gem (terms.py, models.py, gemdom.py, domain.py)",
           "the specification text in specs/<id>.py and the rules in finatcheck/rules.py",
           "collaborating elements, cells, point sets and FIAT objects are uninterpreted: they are pure and obey the protocol "
           "tables of domain.py", "a failing assert statement of the analysed code is a refusal where that is decided, and taken not to happen where it is not"]


def load_known():
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = dict(p.split("=", 1) for p in line[len("finding:"):].split() if "=" in p and p.split("=")[0] in ("property", "at", "digest"))
            text = line.split("::", 1)[1].strip() if "::" in line else ""
            out[(parts["property"], parts["at"], parts.get("digest", "*"))] = text
    return out


def ident(o):
    return (o.case + "/" + o.key).replace(" ", "_")


def digest(o):
    r = getattr(o, "sig", None)
    return r if r else "none"


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    verbose = "-v" in argv
    t0 = time.time()
    try:
        res = check.run_property(pid, tier)
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s %s: %s" % (pid, type(e).__name__, e))
        return 2
    os.makedirs(EVID, exist_ok=True)
    known = load_known()
    viol, und, held, kn = [], [], [], []
    for o in res.obligations:
        if o.verdict == "holds":
            held.append(o)
        elif o.verdict == "violated":
            k = None
            for d in (digest(o), "*"):
                if (pid, ident(o), d) in known:
                    k = known[(pid, ident(o), d)]
            if k is not None:
                kn.append((o, k))
            else:
                viol.append(o)
        else:
            und.append(o)
    rep = os.path.join(EVID, pid + ".report.txt")
    with open(rep, "w") as f:
        for tag, os_ in (("VIOLATED", viol), ("UNDECIDED", und), ("HOLDS", held)):
            for o in os_:
                f.write("%s %s\n" % (tag, ident(o)))
                for d in o.detail:
                    f.write("    %s\n" % d)
                for q, (p, ln) in sorted(o.functions.items()):
                    f.write("    analysed %s (%s:%s)\n" % (q, p, ln))
    funcs = {}
    for o in res.obligations:
        funcs.update(o.functions)
    n = len(res.obligations)
    samples = []
    for o in (viol + held)[:6]:
        samples.append({"obligation": ident(o), "verdict": o.verdict, "detail": [d[:600] for d in o.detail[:2]],
                        "functions": sorted(o.functions)[:12]})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": res.explanation,
            "rule": res.rule,
            "obligations": n, "discharged": len(held), "undecided": len(und), "violated": len(viol), "known_findings": len(kn),
            "functions_analysed": len(funcs), "modules_loaded": res.modules,
            "functions": ["%s (%s:%s)" % (q, os.path.relpath(p, check.repo_root()), ln) for q, (p, ln) in sorted(funcs.items())],
            "undecided_obligations": [ident(o) for o in und],
            "obligation_list": [ident(o) for o in res.obligations],
            "samples": samples,
            "trusted_base": TRUSTED,
            "checker_cmd": "python3 -m finatcheck %s --tier %s" % (pid, tier),
        },
        "assumptions": TRUSTED,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for o, k in kn:
        print("KNOWN-FINDING: property=%s %s %s" % (pid, ident(o), k))
    for o in und:
        print("UNDECIDED property=%s %s %s" % (pid, ident(o), (o.detail or [""])[0][:300]))
    print("property=%s obligations=%d discharged=%d undecided=%d violated=%d functions=%d wall=%.1fs" % (
        pid, n, len(held), len(und), len(viol), len(funcs), time.time() - t0))
    if verbose:
        for o in held:
            print("HOLDS", ident(o))
    if viol:
        for o in viol:
            print("  violated obligation %s" % ident(o))
            for d in o.detail[:2]:
                print("    " + d[:1500])
            for q, (p, ln) in sorted(o.functions.items())[:8]:
                print("    in %s (%s:%s)" % (q, p, ln))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if not held:
        print("ANALYSIS-BROKEN property=%s no obligation could be decided" % pid)
        return 2
    return 0
