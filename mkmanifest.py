#!/usr/bin/env python3
"""Write MANIFEST.json (development helper; the file is committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pslib import props
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
SESSION = "TLA+ specification checked with TLC; traces recorded from generated drivers judged against it by TLC"
TECH = {
    "C06": "TLA+ layout machine model-checked with TLC; declarations it enumerates replayed into the compiler; recorded traces judged by TLC",
    "C05": "TLA+ layout specification; traces recorded from generated declarations judged by TLC",
    "C08": "TLA+ integer specification model-checked with TLC; conversions recorded from the code judged by TLC",
    "C09": "TLA+ integer specification model-checked with TLC; byte conversions recorded from the code judged by TLC",
    "C10": "TLA+ enum specification model-checked with TLC; conversions recorded from generated enums judged by TLC",
    "C11": "TLA+ enum specification model-checked with TLC; inferred types recorded from generated enums judged by TLC",
    "C20": "TLA+ integer specification; serde calls recorded from the code judged by TLC",
    "C21": "TLA+ session specification; traces recorded under every feature configuration judged by TLC",
    "C24": "TLA+ specification of markers and byte arrays model-checked with TLC; uses recorded from the code judged by TLC",
    "C25": "TLA+ machine of declaration shapes model-checked with TLC; declarations it enumerates replayed into the compiler",
    "C23": "TLA+ layout specification; documentation read from macro expansion judged by TLC",
}
NOTE = ("Every recorded operation of the generated declarations is judged by TLC against the specification; exhaustive over the "
        "listed widths and offsets, sampled over values and structures (seeded). Trusts TLC, rustc and the driver runtime in harness/rt.")
NOTES = {}
try:
    from pslib import notes
    NOTES = notes.NOTES
except ImportError:
    pass
checks, na = [], []
for i in ids:
    if hasattr(props, i):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": TECH.get(i, SESSION), "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "DESIGN.md describes the specification, the checks and what they cover. No hooks in /repo are needed."},
          open("MANIFEST.json", "w"), indent=1)
