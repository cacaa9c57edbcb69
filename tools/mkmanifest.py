#!/usr/bin/env python3
"""Rewrites MANIFEST.json: a check for every property that has a harness, the others not_applicable."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set()
for f in glob.glob(root + "/harness/*/*.go"):
    have |= set(re.findall(r"^func (C\d\d)_", open(f).read(), re.M))
notes = json.load(open(root + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the real code (Go SSA, rebuilt from /repo on each run), assertions decided by SMT (z3, cvc5), counterexamples replayed on the real build",
            "level": "model_checking",
            "level_note": notes.get(i, {}).get("note", notes["default"]),
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks read the compiler's SSA of the unmodified sources. Recorded findings and repairs: known_findings.txt."},
          open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
