#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PROPERTIES
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
NA = {}
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^Feature verif"], capture_output=True, text=True).stdout.split()
checks = [dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
               technique=PROPERTIES[i].get("technique", "TLA+ specification model-checked with TLC; behaviours replayed on the code, recorded runs validated against the specification"),
               level=PROPERTIES[i]["level"], level_note=PROPERTIES[i].get("note", "Model: exhaustive within its bounds. Code: every recorded run is a behaviour of the specification (sampled scenarios and replayed behaviours), up to floating-point tolerances; trusts TLC, the RealArith override and the harness's recorder."))
          for i in ids if i in PROPERTIES]
na = [dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in PROPERTIES]
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="cargo feature verif", enable="the harness crate depends on /repo with features = [\"verif\"]",
                    source_commits=HOOK),
         notes="The hook gives access to the parameters of a neural network and to the crate-private utility functions; everything else uses public API. known_findings.txt lists repaired and recorded defects.")
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
