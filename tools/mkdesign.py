#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (per-property sections) from propdefs.py, the contract files and the last evidence.

Development helper, not used by any check. The costs are taken from evidence/ (run the checks first).
"""
import json, os, re, glob
import propdefs
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- generated by tools/mkdesign.py -->\n", "<!-- end of generated part -->\n"

targets = {}
for f in glob.glob(os.path.join(VERIF, "contracts/**/*.rs"), recursive=True):
    for n, t in re.findall(r'Contract \{\s*name: "([^"]+)",\s*target:\s*"([^"]+)"', open(f).read()):
        targets[n] = t
props = json.load(open(os.path.join(VERIF, "tools/props.json")))
seeds = {}
for m in sorted(glob.glob(os.path.join(VERIF, "seeded/*/meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["needs"]))

out = []
for p in propdefs.PROPS:
    out.append("### %s. %s\n\n" % (p["id"], p["title"]))
    if p.get("na"):
        out.append("Not applicable: %s\n\n" % p["na"])
        continue
    q = props[p["id"]]
    hist = set(q.get("horizon", []))
    fn = [c for c in q["contracts"] if c not in hist]
    hi = [c for c in q["contracts"] if c in hist]
    show = lambda cs: "; ".join("`%s` (%s)" % (c, targets.get(c, "?")) for c in cs)
    if fn:
        out.append("- Function contracts: %s.\n" % show(fn))
    if hi:
        out.append("- Bounded: %s.\n" % show(hi))
    out.append("- Files: %s.\n" % ", ".join("`contracts/%s`" % f for f in q["files"]))
    out.append("- Level `%s`. %s\n" % (q["level"], p.get("level_note", "")))
    out.append("- Oracle: the formulas of the statement in `properties.jsonl`, written out in the contract's postconditions.\n")
    out.append("- Bounds: %s.\n" % p.get("bounds", "none"))
    if q.get("assumptions"):
        out.append("- Assumptions besides the general ones: %s.\n" % ", ".join("`%s`" % a for a in q["assumptions"]))
    ev = os.path.join(VERIF, "evidence", p["id"] + ".json")
    if os.path.exists(ev):
        c = json.load(open(ev))["coverage"]
        wall = sum(x.get("wall_s", 0) for x in c.get("contracts", []))
        out.append("- Size: %d obligations of function contracts, %d of bounded contracts and histories; %.0f s in the contracts, %.0f s of solver time over all cores.\n"
                   % (c.get("obligations", 0), c.get("bounded_obligations", 0), wall, c.get("solver_s", 0)))
    out.append("- Why beyond tests: %s.\n" % p["why_tests_cant"])
    for s, needs in seeds.get(p["id"], []):
        out.append("- Planted: `%s` (needs %s).\n" % (s, needs))
    out.append("\n")
f = os.path.join(VERIF, "DESIGN.md")
t = open(f).read()
a, b = t.index(BEGIN) + len(BEGIN), t.index(END)
open(f, "w").write(t[:a] + "\n" + "".join(out) + t[b:])
