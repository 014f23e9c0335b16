#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present in mc/ (run by hand; the result is committed)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
 "C01": "explicit-state enumeration of (space group, basis, origin, orientation, spin) driving the real SpaceGroup, oracle = ITA operations",
 "C02": "explicit-state enumeration of cells and user transformations, every detected operation replayed against the tables",
 "C03": "exhaustive enumeration of all 460 tables: group closure, little groups, character orthogonality, text round trips",
}
LEVEL = {"C18": "fault_enumeration"}
NOTE = {}
try:
    from notes import TECH as T2, NOTE as N2
    TECH.update(T2); NOTE.update(N2)
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"{PY} check.py {i}", thorough_cmd=f"{PY} check.py {i} --thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH.get(i, "explicit-state enumeration of a bounded input and operation space on the real code"),
                           level=LEVEL.get(i, "model_checking"), level_note=NOTE.get(i, "bounded exhaustive exploration of the real code against an independent reference model")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd=f"{PY} -c 'import numpy, scipy, spglib, click'", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
