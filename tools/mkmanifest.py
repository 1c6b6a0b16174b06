#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="LIBCZI_VERIF_HOOKS", enable="the checks' own CMake build passes -DLIBCZI_VERIF_HOOKS=1 in CMAKE_CXX_FLAGS (tools/build.py)"),
         checks=[dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p + " thorough",
                      technique=PLAN[p]["technique"], level=PLAN[p]["level"], level_note=PLAN[p]["note"]) for p in props if p in PLAN],
         not_applicable=[dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in PLAN])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
