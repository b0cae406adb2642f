#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
exec(open(here + "/tools/claims.py").read())  # CLAIMS: id -> (technique, note); NA: id -> reason
checks = []
for p in props:
    if p["id"] in CLAIMS:
        t, n = CLAIMS[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick ./check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks rewrite a scratch copy of /repo's sources; nothing in /repo is guarded by the tag", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "machinery for this property is not finished yet")} for p in props if p["id"] not in CLAIMS],
     "notes": "All checks share ./check: it rewrites /repo's working tree onto a controlled scheduler (rewrite/, mc/), builds harness/ against it and explores. See DESIGN.md."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(m["not_applicable"]), "not")
