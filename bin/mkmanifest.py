#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props_table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props_table import PROPS, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i} quick", thorough_cmd=f"python3 bin/check.py {i} thorough",
            technique="deterministic simulation with fault injection: " + c.get("technique", "seeded operation histories and faults against a reference model"),
            level="exploration", level_note=c.get("note", "Seeded search: holds on every explored run; no exhaustiveness claim. Trusts the simulated heap/disk and the reference model in /verif."),
            evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 bin/check.py --build-all", checks=checks, not_applicable=na,
    hooks=dict(guard="CISTA_SIM (unused)", enable="No hooks were needed: every seam is a template parameter, a link-time symbol wrap (-Wl,--wrap) or the compiler's own instrumentation; /repo is built unchanged.", source_commits=[]),
    notes="See DESIGN.md. Replay a violation with: python3 bin/check.py --replay FILE")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
