#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registry of monitors."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = open(os.path.join(here, "qpmon", "__main__.py")).read()
ns = {}
exec(src[src.index("REGISTRY"):src.index("}\n", src.index("REGISTRY")) + 2], ns)
TECH = {
 "default": "runtime monitoring: calls of the real code under generated workloads judged by an independent reference model",
}
extra = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    mod = ns["REGISTRY"].get(i)
    if mod and os.path.exists(os.path.join(here, "qpmon", "props", mod + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=extra.get(i, {}).get("technique", TECH["default"]),
            level="exploration",
            level_note=extra.get(i, {}).get("note", "Held on the executions of this run only (counts in the evidence file); "
              "trusts numpy/scipy linear algebra, FFT and optimisers used by the reference models.")))
    else:
        na.append(dict(property=i, reason="monitor not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: qetpy is pure Python and every property is observable at its public API. "
               "known_findings.txt lists genuine defects (repaired and recorded).")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
