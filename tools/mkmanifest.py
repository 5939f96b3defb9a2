#!/usr/bin/env python3
"""Writes MANIFEST.json from what bin/check can do."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import check

TRACE = "TLA+ state machine (spec/Qlc.tla): recorded histories of the real program checked against it by TLC"
MODEL = "; TLC explores bounded models of the same specification and their behaviours are replayed into the real program"
TECH = {}
NOTE = "Random histories (seeded) judged by TLC against the specification's definition of the property."
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [p for p in props if p in check.PLAN or hasattr(check, "check_" + p)]
m = {"version": 1, "setup_cmd": "python3 bin/setup",
     "hooks": {"guard": "qlc_verif",
               "enable": "QLC_VERIF_RT=/verif/hook/verif_rt.rs RUSTFLAGS='--cfg qlc_verif' cargo build (only C01 uses it)",
               "source_commits": ["afd1098ab96f9e29a7ffbdf47637bbe0cbbf2c3d"]},
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 bin/check " + p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 bin/check " + p,
                 "technique": TECH.get(p, TRACE), "level": "model_checking", "level_note": NOTES.get(p, NOTE)} for p in have],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in have]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
