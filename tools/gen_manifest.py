#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
NA = {
 "S01": "Quantifies over all formulas and models: whether the final assignment satisfies every clause needs the two-watched-literal and trail invariants as one inductive argument over the whole search (a functional-correctness proof); the local obligations static analysis can settle are claimed as C01, C04, C05, C06, C31 and C32.",
 "S02": "Soundness of resolution-based learning is a logical statement about the derived clauses; no dataflow or type rule in reach bounds it. Its local obligations are claimed as C07, C09, C11, C35.",
 "S03": "Termination of CDCL needs a well-founded argument about learned-clause sets across restarts and reductions, which no static analysis in reach provides. The local progress obligations are claimed as C33 and C29.",
 "S04": "Equivalence of the recursive and the iterative redundancy search and exactness of redundancy quantify over implication graphs; no sound static rule in reach decides it. Cleanliness of the scratch data and bounded recursion are claimed as C08 and C29.",
 "S05": "Equality of a computed sequence with the Luby sequence for all terms is an arithmetic induction about values, not a property a dataflow, effect or type rule can settle. That the sequence is positive, so restarts make progress, is claimed as C33.",
}
PENDING = "No check for this property is registered yet."
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(ROOT, "sa", "rules", pid.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module("sa.rules." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s --tier quick" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": getattr(m, "TECHNIQUE", "abstract interpretation of compiler MIR"),
            "level": "other",
            "level_note": getattr(m, "RULE", "") + ". " + " ".join(
                (m.__doc__ or "").split())[:900] + (
                " Assumes: " + "; ".join(m.ASSUMES) + "." if getattr(m, "ASSUMES", None) else ""),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, PENDING)})
man = {
    "version": 1,
    "setup_cmd": "python3 -m sa.setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Static analysis only: a rustc driver extracts MIR and types from the current tree of /repo; abstract interpretation and MIR queries decide each property. Thorough runs analyse the release and the debug-assertion build.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
