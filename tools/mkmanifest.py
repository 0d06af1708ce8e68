#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the META blocks of checks/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import runner
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na, variants = [], [], {"asan"}
for p in props:
    c = p["id"].lower()
    if os.path.exists(os.path.join(V, "checks", c + ".py")) and p["id"] not in NA:
        m = runner.load_meta(c)
        variants.add(m.get("variant", "asan"))
        variants.update(m.get("extra_variants", []))
        checks.append({"property": p["id"], "quick_cmd": "python3 vlib/runner.py " + c,
                       "thorough_cmd": "python3 vlib/runner.py %s --tier thorough" % c,
                       "technique": m.get("technique", "runtime monitor: model-based oracle over randomised executions of the ASan/UBSan build"),
                       "level": m.get("level", "exploration"),
                       "level_note": m.get("level_note", "Randomised, seed-determined workload; holds on the executions observed. " + m["rule"])})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
out = {"version": 1, "setup_cmd": "python3 vlib/build.py " + " ".join(sorted(variants)), "checks": checks, "not_applicable": na}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
