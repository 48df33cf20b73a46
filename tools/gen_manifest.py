"""Writes MANIFEST.json from the claims below (run: python3 tools/gen_manifest.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = {}
def claim(pid, note, level="proof", technique="contract-based deductive verification: contracts on the functions of /repo, obligations extracted from the current source and discharged by z3/cvc5"):
  CLAIMS[pid] = (note, level, technique)
NA = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough", "evidence_file": f"evidence/{p}.json", "technique": CLAIMS[p][2], "level": CLAIMS[p][1], "level_note": CLAIMS[p][0]} for p in props if p in CLAIMS]
na = [{"property": p, "reason": NA.get(p, "not covered yet: its functions are not under contract at this commit")} for p in props if p not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
