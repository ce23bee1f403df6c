#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and tools/props.json."""
import json, os, re, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from propdefs import PROPS, NA

def w(path, text):
    with open(os.path.join(VERIF, path), "w") as f:
        f.write(text)

def main():
    lines, checks, na, cfg = [], [], [], {}
    # contract name -> file; whole-history scenarios live in lib__*.rs
    where = {}
    for root, _, fs in os.walk(os.path.join(VERIF, "contracts")):
        for f in fs:
            path = os.path.join(root, f)
            for n in re.findall(r'Contract \{ name: "(\w+)"', open(path).read()):
                where[n] = os.path.relpath(path, os.path.join(VERIF, "contracts"))
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        lines.append(json.dumps(d, ensure_ascii=False))
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        for n in p["contracts"]:
            assert where[n] in p["files"], (p["id"], n, where.get(n))
        p["horizon"] = [n for n in p["contracts"] if (where[n].startswith("lib__") and n not in p.get("functions", [])) or n in p.get("histories", [])]
        p.setdefault("level", "other" if len(p["horizon"]) == len(p["contracts"]) else "proof")
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
            "technique": p["technique"],
            "level": p.get("level", "proof"),
            "level_note": p["level_note"],
            "evidence_file": "evidence/%s.json" % p["id"],
        })
        cfg[p["id"]] = {k: p[k] for k in ("files", "contracts", "assumptions", "bounds", "budget_s", "level", "bounded", "horizon") if k in p}
    w("properties.jsonl", "\n".join(lines) + "\n")
    commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "none: contracts are appended to a build-time copy of the sources under /verif/build, /repo carries no hooks", "enable": "n/a", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "Contract-based deductive verification with an own VC generator: /repo's sources are mechanically rewritten to symbolic reals on every run, contracts are appended to the modules, every path is enumerated and every obligation discharged by a polynomial normaliser or Z3/cvc5. See DESIGN.md.",
    }
    w("MANIFEST.json", json.dumps(man, indent=1, ensure_ascii=False) + "\n")
    w("tools/props.json", json.dumps(cfg, indent=1, ensure_ascii=False) + "\n")

main()
