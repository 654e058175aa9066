#!/usr/bin/python3
"""Writes MANIFEST.json from the property list."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from zprops import PROPS, NOTES, NOT_APPLICABLE
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": [],
     "notes": "python3 check.py --replay <file> -v replays a recorded execution. No hooks in /repo: the seams are the library's own "
              "allocator interface, its calls to libc (redirected in the object files) and compiler instrumentation of memory accesses."}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation with fault injection (" + NOTES[i][0] + ")",
                            "level": PROPS[i].get("level", "exploration"), "level_note": NOTES[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
