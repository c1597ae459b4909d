"""Writes MANIFEST.json: every property with a specification or rule is
claimed, every other one is listed as not applicable with its reason."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from finatcheck import rules  # noqa: E402

NA = {
    "C40": "The statement quantifies over floating-point geometry (every physical cell) and the numerical content of FIAT tables; no static argument over the source bounds those. The static part of it is C20 (scaling) and C21 (matrix-table product).",
    "C41": "Exactness is a numerical property of the points and weights FIAT computes at run time; the static part, that the right degree is requested on each sub-cell, is C11.",
    "C42": "Nodality is established by sympy algebra executed at run time over a symbolic quadrilateral; deciding it means running that algebra. The static part, the DoF partition, is C32.",
    "C43": "Support DoFs are computed from numerically integrated tables; whether a trace vanishes is not decidable from the source. The static part, which integrals are taken and which DoFs are kept, is C34.",
    "C44": "A condition-number bound is a numerical statement about assembled matrices for all mesh sizes; no static argument reaches it.",
}
PENDING = "No check yet: its obligations are not encoded in the analysis."
TRUST = (" Trusts the transfer functions of finatcheck and its protocol tables for collaborating objects; obligations the normal "
         "forms cannot decide are printed as UNDECIDED and never raise an alarm.")
NOTES = {}
TECH_SPEC = "static analysis: abstract interpretation of the source over unknown arguments to normal forms, compared with the specified normal form"
TECH_RULE = "static analysis: rule over every construct of the loaded program (class tables, call sites, dataflow)"


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        spec = os.path.exists(os.path.join(HERE, "specs", pid + ".py"))
        rule = pid in rules.RULES
        if not spec and not rule:
            na.append({"property": pid, "reason": NA.get(pid, PENDING)})
            continue
        tech = "; ".join(([TECH_SPEC] if spec else []) + ([TECH_RULE] if rule else []))
        checks.append({"property": pid,
                       "quick_cmd": "python3 -m finatcheck %s --tier quick" % pid,
                       "thorough_cmd": "python3 -m finatcheck %s --tier thorough" % pid,
                       "technique": tech, "level": "other",
                       "level_note": NOTES.get(pid, "Sound for every argument within the modelled protocols: each obligation is "
                                               "an equality of normal forms over symbolic arguments, no input is sampled.") + TRUST})
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q finatcheck", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo's current source and never import or run it. No hooks are needed in /repo. "
                    "See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
