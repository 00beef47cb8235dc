#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present in harness/."""
import json
import os
import re

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "harness", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="not built yet: the specification does not cover it so far"))
        continue
    s = open(f).read()
    level = re.search(r'^LEVEL = "(.*)"', s, re.M).group(1)
    trace = re.search(r'^TRACE = "(.*)"', s, re.M).group(1)
    models = sorted(set(re.findall(r'\("(\w+)", "\w+\.cfg"', s)))
    tech = "TLA+ specification; " + (f"TLC checks {', '.join(models)}; " if models else "") \
        + f"executions of the real code validated against spec/{trace}.tla by TLC"
    ass = re.search(r"^ASSUMPTIONS = \[(.*?)^\]|^ASSUMPTIONS = \[(.*?)\]$", s, re.M | re.S)
    a = re.findall(r'"((?:[^"\\]|\\.)*)"', (ass.group(1) or ass.group(2)) if ass else "")
    note = "Design models are exhaustive within the constants of their cfg; the binding to the code is by validation of recorded executions (seeded sample of inputs/histories, total verdicts by TLC). "
    note += ("Assumes: " + "; ".join(a) + ". ") if a else ""
    note += "Trusts TLC, the projection of floats to exact integers in harness/, numpy and spglib."
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"/opt/venv/bin/python run.py {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python run.py {p['id']}",
        evidence_file=f"evidence/{p['id']}.json",
        technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the public API exposes the abstract state. setup needs nothing: TLC and the repository's own interpreter are used as installed."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
