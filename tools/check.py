#!/usr/bin/env python3
"""Decides one property: check.py <PROPERTY> [--tier quick|thorough]

1. extracts /repo's current working tree over symbolic reals and compiles it together with the
   property's contracts (tools/overlay.py, contracts/)
2. generates and discharges the obligations of every contract
3. replays counterexamples on the unmodified crate
4. writes evidence/<PROPERTY>.json; exit 0 or 1 (+ VIOLATION line)
"""
import json, os, re, subprocess, sys, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import overlay
from overlay import VERIF, BUILD, BuildError, feat

PROPS = json.load(open(os.path.join(VERIF, "tools", "props.json")))
COMMON = ["lib__common.rs"]


def modules():
    """module name -> contract file"""
    out = {}
    top = os.path.join(VERIF, "contracts")
    for root, _, fs in os.walk(top):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), top)
            out[overlay.modname(p)] = p
    return out


MODULES = modules()


def needs(f):
    """contract files (e.g. the bench that calls a processor outside of a graph) a contract file uses"""
    seen, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.append(g)
        text = open(os.path.join(VERIF, "contracts", g)).read()
        todo += [MODULES[m] for m in sorted(set(re.findall(r"\bvc_\w+", text))) if m in MODULES]
    return [g for g in seen if g != f and g not in COMMON]


def sh(cmd, timeout):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def build_with_fallback(kind, files):
    """drop contract files whose anchor no longer compiles, one by one"""
    lost = {}
    files = list(files)
    while True:
        everything = []
        for f in files:
            everything += [g for g in [f] + needs(f) if g not in everything]
        try:
            return overlay.build(kind, COMMON + sorted(everything)), files, lost
        except BuildError as e:
            msg = str(e)
            # which contract module does the compiler complain about?
            bad = next((f for f in everything if blame(kind, f, msg)), None)
            gone = [f for f in files if f == bad or bad in needs(f)]
            if bad is None or not gone:
                raise
            for f in gone:
                lost[f] = msg[-1500:]
                files.remove(f)
            if not files:
                raise


def blame(kind, f, msg):
    """an error position inside the contract module appended to the host file"""
    src = os.path.join(BUILD, kind, "src", overlay.host(f))
    try:
        lines = open(src).read().split("\n")
    except OSError:
        return False
    mark = "mod %s {" % overlay.modname(f)
    start = next((i for i, l in enumerate(lines) if mark in l), None)
    if start is None:
        return False
    end = len(lines)
    for i in range(start + 1, len(lines)):
        if re.search(r"pub\(crate\) mod vc_\w+ \{", lines[i]):
            end = i
            break
    for m in re.finditer(r"--> src/(\S+?):(\d+):", msg):
        if m.group(1) == overlay.host(f) and start < int(m.group(2)) <= end:
            return True
    return False


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        out = json.load(open(p))["findings"]
    return out


def match_known(prop, contract, fail, findings):
    for k in findings:
        if k.get("status") == "fixed" or k["property"] != prop or contract not in k["contracts"]:
            continue
        if k.get("obligation") and not re.fullmatch(k["obligation"], fail["obligation"]):
            continue
        lab = fail.get("labels", {})
        if any({kk: lab.get(kk) for kk in c} == c for c in k["cases"]):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    files = cfg["files"]
    names = cfg["contracts"]
    budget = cfg.get("budget_s", 240) * (4 if tier == "thorough" else 1)
    violations = []  # (replay path, suffix, text)
    known = {}
    assumptions = json.load(open(os.path.join(VERIF, "tools", "assumptions.json")))
    assume = [assumptions[a] for a in cfg.get("assumptions", []) + ["arith", "extraction", "engine"]]
    reports = []
    mode = "symbolic"
    lost = {}
    err = ""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        binary, files_ok, lost = build_with_fallback("sym", files)
        rc, out, _ = sh([binary, "list"], 60)
        avail = [l.split("\t")[0] for l in out.splitlines()]
        todo = [n for n in names if n in avail]
        if not todo:
            raise BuildError("no contract of %s compiles against this tree" % prop)
        for n in todo:
            left = max(20, budget - (time.time() - t0))
            rc, out, er = sh([binary, "run", "--only", n, "--threads", "8", "--budget", "%d" % left], left + 200)
            got = [json.loads(l) for l in out.splitlines() if l.startswith("{")]
            if not got:
                raise BuildError("verifier died on contract %s: rc=%s %s" % (n, rc, er[-800:]))
            reports += got
    except (BuildError, subprocess.TimeoutExpired) as e:
        mode = "native"
        err = str(e)[-3000:]
        reports = []
    findings = known_findings()
    native = None

    def native_bin():
        nonlocal native
        if native is None:
            native, _, _ = build_with_fallback("native", files)
        return native

    if mode == "symbolic":
        expected = json.load(open(os.path.join(VERIF, "tools", "expected.json"))) if os.path.exists(os.path.join(VERIF, "tools", "expected.json")) else {}
        for r in reports:
            groups = {}
            for f in r["failed"]:
                k = match_known(prop, r["contract"], f, findings)
                if k:
                    known[k["id"]] = k
                    continue
                groups.setdefault(f["obligation"], []).append(f)
            for ob, fs in groups.items():
                path = os.path.join(rdir, "%s-%s-%s.txt" % (prop, r["contract"], re.sub(r"[^A-Za-z0-9]+", "_", ob)[:40]))
                reproduced = None
                # "state:" obligations speak about private fields: breaking one is not by itself a failure a user sees
                internal = ob.startswith("state:")
                for f in [] if internal else fs[:6]:
                    rf = path[:-4] + ".inputs"
                    with open(rf, "w") as g:
                        for k, v in f["model"].items():
                            if v is not None:
                                g.write("%s\t%r\n" % (k, v))
                        for k, v in f["labels"].items():
                            if k.startswith("pick:"):
                                g.write("%s\t%s\n" % (k, v))
                    try:
                        rc, out, er = sh([native_bin(), "replay", "--only", r["contract"], "--file", rf], 120)
                        if rc == 1 and "REPRODUCED" in out:
                            reproduced = (f, out, open(rf).read())
                            break
                    except (BuildError, subprocess.TimeoutExpired) as e:
                        pass
                    finally:
                        if os.path.exists(rf):
                            os.remove(rf)
                if not reproduced and not internal:
                    # models may rely on uninterpreted functions: look for another witness of the same obligation
                    try:
                        rc, out, er = sh([native_bin(), "run", "--only", r["contract"], "--samples", "4000", "--seed", str(seed), "--budget", "30"], 200)
                        for x in json.loads(out.splitlines()[-1])["failed"]:
                            lab = {a: str(int(v)) for a, v in x["inputs"].items() if a.startswith("pick:")}
                            if x["obligation"] == ob and not match_known(prop, r["contract"], {"obligation": ob, "labels": lab}, findings):
                                reproduced = (fs[0], "sampled: %s: %s\n" % (ob, x["detail"]), "".join("%s\t%r\n" % kv for kv in x["inputs"].items()))
                                break
                    except Exception:
                        pass
                f = reproduced[0] if reproduced else fs[0]
                with open(path, "w") as g:
                    g.write("property: %s\ncontract: %s\ntarget: %s\nfailed obligation: %s\nverifier: %s\ncase: %s\n" % (prop, r["contract"], r["target"], ob, f["detail"], json.dumps(f["labels"])))
                    g.write("paths on which it fails: %d\n" % len(fs))
                    if reproduced:
                        g.write("\nreplayed on the unmodified crate (machine floats):\n%s\ninputs (build/target-native/debug/vc replay --only %s --file <these lines>):\n%s" % (reproduced[1], r["contract"], reproduced[2]))
                    else:
                        g.write("\nverifier model: %s\n%s\n" % (json.dumps(f["model"]), "invariant over private fields, not replayed" if internal else "not reproduced with machine floats"))
                violations.append((path, "" if reproduced else " no-failing-input-found", "%s: %s" % (r["contract"], ob)))
            # obligations that were not decided
            allowed = cfg.get("bounded", {}).get(r["contract"], [])
            open_obs = []
            for u in r["undecided"]:
                open_obs.append("undecided: %s (%s)" % (u["obligation"], u["detail"][:300]))
            for u in r["unsupported"]:
                open_obs.append("unsupported: " + u)
            if r["truncated"]:
                open_obs.append("path exploration truncated after %d paths" % r["paths"])
            if r["paths"] - r["infeasible"] <= 0 or not r["obligations"] and not r["failed"]:
                open_obs.append("vacuous: no feasible path")
            seen = set(r["obligations"]) | {f["obligation"] for f in r["failed"]} | {u["obligation"] for u in r["undecided"]}
            for e in expected.get(r["contract"], []):
                if e not in seen:
                    open_obs.append("vacuous: obligation '%s' was never generated" % e)
            open_obs = [o for o in open_obs if not any(re.search(a, o) for a in allowed)]
            r["open"] = open_obs
            if open_obs and not groups:
                # look for a failing input of the real code
                path = os.path.join(rdir, "%s-%s-open.txt" % (prop, r["contract"]))
                got = None
                try:
                    rc, out, er = sh([native_bin(), "run", "--only", r["contract"], "--samples", "2000", "--seed", str(seed), "--budget", "40"], 200)
                    d = json.loads(out.splitlines()[-1])
                    if d["failed"]:
                        got = d["failed"][0]
                except Exception as e:
                    er = str(e)
                with open(path, "w") as g:
                    g.write("property: %s\ncontract: %s\ntarget: %s\nobligations left open:\n  %s\n" % (prop, r["contract"], r["target"], "\n  ".join(open_obs[:30])))
                    if got:
                        g.write("\nfailing input on the unmodified crate: %s\n" % json.dumps(got))
                violations.append((path, "" if got else " no-failing-input-found", "%s: %s" % (r["contract"], open_obs[0][:200])))
    else:
        # the extraction or the contracts do not compile against this tree: bounded stand-in
        try:
            b, files_ok, lost2 = build_with_fallback("native", files)
        except BuildError as e:
            print("check %s: neither overlay builds\n%s\n%s" % (prop, err, str(e)[-3000:]))
            sys.exit(2)
        rc, out, _ = sh([b, "list"], 60)
        avail = [l.split("\t")[0] for l in out.splitlines()]
        todo = [n for n in names if n in avail]
        for n in todo:
            rc, out, er = sh([b, "run", "--only", n, "--samples", "1500", "--seed", str(seed), "--budget", "25"], 200)
            got = [json.loads(l) for l in out.splitlines() if l.startswith("{")]
            for d in got:
                reports.append(d)
                fs = []
                for f in d["failed"]:
                    k = match_known(prop, n, {"obligation": f["obligation"], "labels": {a: str(int(v)) for a, v in f["inputs"].items() if a.startswith("pick:")}}, findings)
                    if k:
                        known[k["id"]] = k
                    else:
                        fs.append(f)
                if fs:
                    path = os.path.join(rdir, "%s-%s-native.txt" % (prop, n))
                    with open(path, "w") as g:
                        g.write("property: %s\ncontract: %s (bounded: sampled on the unmodified crate)\nfailing input: %s\n" % (prop, n, json.dumps(fs[0])))
                    violations.append((path, "", "%s: %s" % (n, fs[0]["obligation"])))
    # ---------------------------------------------------------------- evidence
    if mode == "symbolic":
        horizon = set(cfg.get("horizon", []))

        def count(rs):
            d = sum(sum(v) for r in rs for v in r["obligations"].values())
            return d + sum(len(r["failed"]) + len(r["undecided"]) for r in rs), d
        full = count([r for r in reports if r["contract"] not in horizon])
        part = count([r for r in reports if r["contract"] in horizon])
        cov = {
            "obligations": full[0],
            "discharged": full[1],
            "bounded_obligations": part[0],
            "bounded_discharged": part[1],
            "explanation": "obligations/discharged: contracts on single functions with arbitrary pre-state. bounded_*: contracts on whole rendering histories of a fixed number of quanta, or with a pre-state of bounded size, all sample values / times / parameter values symbolic; not counted as proved",
            "checker_cmd": "python3 /verif/tools/check.py %s" % prop,
            "trusted_base": ["/verif/symrt (path enumeration and polynomial normaliser)", "/verif/rw (float -> symbolic real rewriting)", "Z3 4.8.12", "cvc5 1.1.2 (second opinion)", "rustc"],
            "by_back_end": {
                "polynomial_normaliser": sum(v[0] for r in reports for v in r["obligations"].values()),
                "smt": sum(v[1] for r in reports for v in r["obligations"].values()),
                "evaluated_on_path": sum(v[2] for r in reports for v in r["obligations"].values()),
            },
            "smt_queries": sum(r["smt_queries"] for r in reports),
            "solver_s": round(sum(r["smt_ms"] for r in reports) / 1000, 2),
            "cvc5_queries": sum(r["cvc5_queries"] for r in reports),
            "contracts": [{
                "contract": r["contract"], "scope": "bounded" if r["contract"] in horizon else "function contract", "functions": r["target"], "paths": r["paths"], "infeasible_paths": r["infeasible"],
                "paths_confirmed_satisfiable": r["confirmed"], "obligations": {k: sum(v) for k, v in r["obligations"].items()},
                "failed": len(r["failed"]), "left_open": r.get("open", []), "wall_s": r["wall_s"],
            } for r in reports],
            "functions_under_contract": sorted({r["target"] for r in reports}),
            "anchors_lost": sorted(lost),
        }
        if cfg.get("bounds"):
            cov["bounds"] = cfg["bounds"]
        level = cfg.get("level", "proof")
    else:
        cov = {"note": "extraction did not compile against this tree; contracts evaluated on sampled inputs of the unmodified crate (bounded)", "reason": err[-800:],
               "evaluations": sum(r.get("ran", 0) for r in reports), "checks": sum(r.get("checks", 0) for r in reports), "contracts": [r["contract"] for r in reports],
               "obligations": 0, "discharged": 0, "checker_cmd": "python3 /verif/tools/check.py %s" % prop, "trusted_base": ["rustc"]}
        level = "exploration"
    if known:
        cov["known_findings"] = sorted(known)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for path, suf, text in violations:
        print("# " + text)
        print("VIOLATION property=%s replay=%s%s" % (prop, path, suf))
    if not violations:
        print("%s: held (%s, %s obligations discharged, %s of bounded scenarios, %.1f s)" % (prop, mode, cov.get("discharged"), cov.get("bounded_discharged"), time.time() - t0))
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
