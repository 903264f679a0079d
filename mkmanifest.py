#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from lib.checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="python3 /verif/run.py --setup", checks=[],
         not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()],
         notes="All checks: run.py <id>; replay a counterexample with run.py <id> --replay <file>.")
for p in props:
    if p not in CHECKS:
        if p not in NOT_APPLICABLE:
            print('no check yet:', p)
        continue
    c = CHECKS[p]
    tech = ("property-based testing: generated histories and inputs against a reference model, with shrinking"
            if c["engine"] == "A" else
            "property-based testing over generated programs against a reference model, with shrinking")
    m["checks"].append(dict(property=p, quick_cmd="python3 /verif/run.py %s --tier quick" % p,
                            thorough_cmd="python3 /verif/run.py %s --tier thorough" % p,
                            evidence_file="evidence/%s.json" % p,
                            technique=c.get("technique", tech), level="exploration",
                            level_note=c.get("note", "Searched by generation only; see DESIGN.md for the generator and oracle.")))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
