#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, the proof units, tools/notes.json and the planted changes"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

import types
chk = types.ModuleType('check')
src = open(V + '/bin/check.py').read().replace('\nmain()', '\n')
chk.__file__ = V + '/bin/check.py'
exec(compile(src, 'check.py', 'exec'), chk.__dict__)

N = json.load(open(V + "/tools/notes.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
rows, na = [], []
for p in props:
    f = "%s/proofs/%s/units.py" % (V, p["id"])
    if not os.path.exists(f):
        na.append("* **%s** %s: %s" % (p["id"], p["title"], N["na"].get(p["id"], "not built yet")))
        continue
    m = {"U": chk.U, "STD_CHECKS": chk.STD_CHECKS, "TIER": "quick", "VERIF": V, "REPO": "/repo", "__file__": f}
    exec(compile(open(f).read(), f, "exec"), m)
    pr = [u for u in m["UNITS"] if u["kind"] == "proof"]
    bd = [u for u in m["UNITS"] if u["kind"] == "bounded"]
    fns, by = [], []
    for u in m["UNITS"]:
        for x in u["functions"]:
            if x not in fns:
                fns.append(x)
        for c in u["calls"]:
            a, b = c.split(":")
            if not a.startswith("enter_") and a not in by:
                by.append(a)
        for c in u["replace"]:
            if c not in by:
                by.append(c)
    rows.append("### %s: %s\n" % (p["id"], p["title"]))
    rows.append("*Proved units* (%d): %s  " % (len(pr), ", ".join(u["name"] for u in pr) or "none"))
    for u in bd:
        rows.append("*Bounded unit, not counted as proved*: %s (%s)%s  " % (u["name"], u["bound"], ", thorough only" if u["tier"] != "quick" else ""))
    if len(fns) > 24:
        rows.append("*Functions verified*: %d (%s, ...)  " % (len(fns), ", ".join(fns[:12])))
    else:
        rows.append("*Functions verified*: %s  " % ", ".join(fns))
    if by:
        rows.append("*Calls replaced by contracts*: %s  " % ", ".join(by))
    for a in m.get("ASSUMPTIONS", []):
        rows.append("*Assumed*: %s  " % a)
    rows.append("")
seeds = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"], d["needs"], d.get("caught_by", "check " + d["property"])))
t = open(V + "/tools/DESIGN.in.md").read()
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@NA@@", "\n".join(na)).replace("@@SEEDED@@", "\n".join(seeds))
t = t.replace("@@NFIX@@", str(open(V + "/known_findings.txt").read().count("\nfixed:")))
open(V + "/DESIGN.md", "w").write(t)
