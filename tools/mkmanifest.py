#!/usr/bin/env python3
"""Write MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import P
NA = json.load(open(V + "/tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
  hooks=dict(guard="none", enable="no hooks: the harness crate uses /repo's crates unchanged through path dependencies, linked against a model of the operating system", source_commits=[]),
  checks=[dict(property=p, quick_cmd=f"python3 tools/check.py {p} quick", thorough_cmd=f"python3 tools/check.py {p} thorough",
     technique="symbolic execution of the compiler's LLVM IR of the real code with Z3", level="model_checking",
     level_note=("bounded, exhaustive within: " + P[p]["bounds"])[:1500]) for p in props if p in P],
  not_applicable=[dict(property=p, reason=NA.get(p, "no check yet")) for p in props if p not in P])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
