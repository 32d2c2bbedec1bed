#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "msf_core/include/msf_core/implementation/msf_core_inl.h"
P, NA = [], []


def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None, tech=None, note=None, na=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, tech, note, na))


exec(open(os.path.join(V, "tool", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, tech, note, n in P:
    if n or not os.path.exists(os.path.join(V, "msfsa", "rules", d["id"].lower() + ".py")):
        na.append({"property": d["id"], "reason": n or "check not built yet"})
        continue
    checks.append({"property": d["id"], "quick_cmd": "./check " + d["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + d["id"],
                   "technique": tech, "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -m msfsa.build", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: a clang-based front end dumps the resolved program of each translation unit, an abstract interpreter "
              "(value numbering, branch facts, context-sensitive calls) and rule modules decide each property. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", len(na), "not applicable")


# ---- DESIGN.md
import re, runpy, glob


def battery(pid):
    """numbers of changes and rewrites in mutants/ that name the check"""
    b = r = 0
    for m in glob.glob(os.path.join(V, "mutants", "m[0-9]*.py")):
        for x in runpy.run_path(m)["MUTS"]:
            if pid in x[3]:
                b += x[4] == "bug"
                r += x[4] == "ref"
    return b, r


def seeds(pid):
    out = []
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        j = json.load(open(m))
        if j["property"] == pid:
            out.append((os.path.basename(os.path.dirname(m)), j["what_it_breaks"]))
    return out


t = open(os.path.join(V, "tool", "design_head.md")).read()
t += "## The properties, one by one\n\n"
for d, tech, note, n in P:
    t += "### %s %s\n\n%s\n\n" % (d["id"], d["title"], d["statement"])
    if n:
        t += "*Not applicable:* %s\n\n" % n
        continue
    src = open(os.path.join(V, "msfsa", "rules", d["id"].lower() + ".py")).read()
    t += "*Method.* %s.\n\n*Rules decided.*\n" % (tech or "").rstrip(".")
    for a, b in re.findall(r'cx\.rule\("(\w+)", "((?:[^"\\]|\\.)*)"', src):
        t += "- %s: %s\n" % (a, b.replace('\\"', '"'))
    t += "\n*Quantifies over.* %s.\n*Why tests do not settle it.* %s\n*Bounds.* %s\n*Anchored in.* %s.\n" % (
        d["quantifier"]["text"].rstrip("."), d["why_tests_cant"], note or "none beyond the ground rules", ", ".join("`%s`" % f for f in d["anchors"]["files"]))
    b, r = battery(d["id"])
    sd = seeds(d["id"])
    t += "*Tried on.* %d breaking changes and %d rewrites (`mutants/`)%s.\n\n" % (b, r, "; planted bugs caught: " + ", ".join("`%s`" % x for x, _ in sd) if sd else "")
t += open(os.path.join(V, "tool", "design_tail.md")).read()
t += "\n## Repairs made in /repo\n\n"
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        t += "* %s `%s` %s\n" % m.groups()
t += "\n## Planted bugs (`seeded/`)\n\n"
for d, *_ in P:
    for x, w in seeds(d["id"]):
        t += "* `%s`, caught by %s: %s\n" % (x, d["id"], w)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
