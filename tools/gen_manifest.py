"""writes MANIFEST.json: one check per contract module, not_applicable for the rest"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
have = {f[:3].upper() for f in os.listdir(V + "/contracts") if f[0] == "c" and f[1:3].isdigit()}
NOTES = {}
NA = {}
exec(open(V + "/tools/manifest_notes.py").read())
BASE = ("Every obligation generated from the current source of the functions under contract is discharged by z3 "
        "(cvc5 second), for all inputs; trusted: pyvc (symbolic execution in CPython + numpy indexing model, "
        "cross-checked by replaying a model of each path on the unmodified code); integers unbounded, reals exact.")
checks = []
for i in ids:
    if i not in have or i in NA:
        continue
    n = NOTES.get(i, {})
    checks.append(dict(
        property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
        evidence_file="evidence/%s.json" % i,
        technique=n.get("technique", "contract-based deductive verification (symbolic execution of the real code, SMT-discharged contracts)"),
        level=n.get("level", "proof"), level_note=(n.get("note", "") + " " + BASE).strip()))
na = [dict(property=i, reason=NA.get(i, "contract not built yet")) for i in ids if i not in {c["property"] for c in checks}]
m = dict(version=1, setup_cmd="./check.sh --selftest", checks=checks, not_applicable=na,
         notes="no hooks in /repo: contracts live in contracts/, the verifier in pyvc/; see DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
