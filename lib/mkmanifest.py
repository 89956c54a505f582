#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = ("TLC runs the TLA+ specification of the whole tool (lexer to checks) on bounded families of inputs; every "
        "behaviour is replayed on the code in /repo and all observable results are compared. Trusted: the "
        "specification as reading of the language manual, TLC, the comparison in lib/impl.py.")
checks = []
for p in props:
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 bin/check.py %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "TLA+ specification run by TLC, behaviours replayed on the code",
                   "level": "model_checking",
                   "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "sh bin/setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks: all observation goes through the public API and the command line."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
