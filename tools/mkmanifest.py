#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
note = ("Exhaustive for the bounded models of the TLA+ specification (invariants checked by TLC, every behaviour replayed "
        "in the code), plus validation by TLC of recordings of seeded random sessions of the real code; no claim beyond the "
        "explored inputs. Trusts TLC, the harness's encodings and that the specification says what the property says.")
m = {
    "version": 1,
    "setup_cmd": "bash harness/build.sh",
    "checks": [
        {"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
         "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
         "technique": "TLA+ specification model-checked with TLC; behaviours replayed in, and recordings validated from, the code",
         "level": "model_checking", "level_note": note}
        for p in props],
    "not_applicable": [],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
