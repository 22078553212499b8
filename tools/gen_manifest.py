#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from engine/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import registry
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                 "technique": s.technique, "level": s.level, "level_note": s.note}
                for p, s in registry.PROPS.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in registry.NOT_APPLICABLE.items()]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
