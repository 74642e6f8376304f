#!/usr/bin/env python3
"""Writes MANIFEST.json from propinfo.py and properties.jsonl."""
import json
import os

from propinfo import PROPS, _TEXT
from notapplicable import NA

here = os.path.dirname(os.path.abspath(__file__))
missing = [p for p in _TEXT if p not in PROPS and p not in NA]
assert not missing, missing
assert all(p in _TEXT for p in PROPS) and all(p in _TEXT for p in NA)
m = {
    "version": 1,
    "setup_cmd": "python3 vsim.py build",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 vsim.py check %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 vsim.py check %s" % p,
        "technique": i["technique"],
        "level": "exploration",
        "level_note": i["note"],
    } for p, i in sorted(PROPS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "No hooks in /repo are needed: the seams are the allocator, the C++ runtime, libc (linker wrapping) and compiler instrumentation. Repairs of genuine defects are listed in KNOWN_FINDINGS.txt.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
