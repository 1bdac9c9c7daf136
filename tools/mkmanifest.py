#!/usr/bin/env python3
"""MANIFEST.json from the proofs/ directory and tools/notes.json"""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(V + "/tools/notes.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if os.path.exists("%s/proofs/%s/units.py" % (V, p)):
        n = N["notes"].get(p, {})
        level = re.search(r'^LEVEL = "(\w+)"', open("%s/proofs/%s/units.py" % (V, p)).read(), re.M).group(1)
        checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick bin/check " + p,
                           thorough_cmd="VERIF_TIER=thorough bin/check " + p,
                           technique=n.get("technique", "CBMC code contracts on the real functions (goto-instrument --dfcc)"),
                           level=level, level_note=n.get("note", N["default_note"])))
    else:
        na.append(dict(property=p, reason=N["na"].get(p, "not built yet")))
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in commits.splitlines() if "guarded by CLIGEN_VERIFY" in l]
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               hooks=dict(guard="CLIGEN_VERIFY", enable="goto-cc -DCLIGEN_VERIFY (bin/check.py does it): the LOOP_* annotations of cligen_contracts.h become CBMC loop contracts", source_commits=hooks),
               notes="See DESIGN.md"), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
