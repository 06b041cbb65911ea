#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harnesses import CHECKS, NOTES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    technique, level, note = NOTES[i]
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": technique, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "LIBDCP_VERIF", "enable": "-DLIBDCP_VERIF=1 is on in every build made by tools/build.py; no source of libdcp tests it, as the monitors observe the library from outside", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Checks rebuild the library from /repo/src under sanitizers with stand-ins (shim/) for libcxml and asdcplib, which are not installed here. See DESIGN.md."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
