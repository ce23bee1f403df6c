#!/usr/bin/env python3
"""tools/expected.json: the obligations every contract must generate (vacuity guard), from evidence/ of a clean run."""
import glob, json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for p in glob.glob(os.path.join(VERIF, "evidence", "P*.json")):
    for c in json.load(open(p))["coverage"].get("contracts", []):
        out[c["contract"]] = sorted(c["obligations"])
with open(os.path.join(VERIF, "tools", "expected.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write("\n")
