#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NA = {}
note = ("TLC explores every history of bounded length over the property's alphabets on the TLA+ specification, checking the property on each "
        "transition; every explored history and seeded random ones are replayed on the real contract code and each transaction is checked by TLC "
        "against the specification. Exhaustive within the alphabets and bounds, sampled beyond them; the chain around the contract is a stand-in.")
m = {
    "version": 1,
    "setup_cmd": "bash run/setup.sh",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 run/check.py {p} --tier quick",
        "thorough_cmd": f"python3 run/check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "TLA+ specification model-checked with TLC; model histories replayed on the real code and recorded transactions validated against the specification by TLC",
        "level": "model_checking",
        "level_note": note,
    } for p in ids if p not in NA],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "No hooks: the harness uses only the public interface of the crates in /repo. See DESIGN.md.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
