#!/usr/bin/env python3
"""Entry point of every registered check:  check.py <property> [--tier quick|thorough] [--repo DIR]

Builds the MIR-dump driver, type-checks /repo's current working tree through it, loads the resulting
program and lets the property's rule decide it.  Exit 0: held.  Exit 1: VIOLATION line(s).
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)

import base  # noqa: E402
import dump  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--dump", default=None, help="use an existing dump directory (development only)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    info = {}
    R = base.Run(pid, tier)
    try:
        d = a.dump or dump.dump(a.repo, os.path.join(HERE, ".build"), info)
        R.load(d)
        mod = importlib.import_module("rules." + pid.lower())
        mod.check(R)
        R.finish_counts(getattr(mod, "FLOORS", {}))
    except dump.BuildError as e:
        R.violation("build", "the tree does not type-check, so nothing can be decided: " + str(e)[-2000:], "")
    except base.MissingAnchor as e:
        R.violation("anchor:" + e.key, "cannot decide: " + str(e), "")
    except Exception as e:   # fail closed, with a diagnosable report
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        R.violation("analysis:" + type(e).__name__, "the analysis could not complete: " + tb[-700:], "")
    known = base.known_findings(os.path.join(HERE, "known-findings.txt"), pid)
    new = []
    for v in R.viol:
        if v["key"] in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[v["key"]], v["key"]))
            v["known"] = True
        else:
            new.append(v)
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    mod = sys.modules.get("rules." + pid.lower())
    cov = {
        "explanation": (getattr(mod, "__doc__", "") or "").strip() or "static analysis",
        "obligations": len(R.obs),
        "discharged": sum(1 for o in R.obs if o["ok"]),
        "rule_instances": R.rule_counts(),
        "functions_analysed": len(R.functions),
        "roots": sorted(R.roots),
        "call_sites_with_assumed_effect": len(R.opaque),
        "abstract_steps": R.steps,
        "crates": info.get("crates", []) or R.crates,
        "functions_loaded": R.nfns,
        "samples": [{"rule": o["rule"], "where": o["where"], "what": o["what"]} for o in R.sample()],
        "analysed_functions": sorted(R.functions),
        "known_findings": [v["key"] for v in R.viol if v.get("known")],
    }
    cov.update(R.extra)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + base.ASSUMPTIONS,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
    if new:
        with open(rp, "w") as f:
            for v in new:
                f.write("[%s] %s\n    at %s\n    %s\n" % (v["rule"], v["key"], v["where"], v["msg"]))
        for v in new:
            print("  %s: %s" % (v["key"], v["msg"].split("\n")[0][:400]))
            if v["where"]:
                print("      at %s" % v["where"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if os.path.exists(rp):
        os.unlink(rp)
    if a.v:
        for o in R.obs:
            print("ok" if o["ok"] else "--", o["rule"], o["where"], o["what"][:200])
    print("OK property=%s tier=%s obligations=%d functions=%d wall=%.1fs" % (
        pid, tier, len(R.obs), len(R.functions), wall))
    sys.exit(0)


if __name__ == "__main__":
    main()
