#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below and properties.jsonl."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/na.json"))
NOTES = json.load(open(V + "/notes.json"))
checks = []
na = []
for p in props:
    if p in NOTES:
        checks.append({
            "property": p,
            "quick_cmd": "./check.sh %s quick" % p,
            "thorough_cmd": "./check.sh %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": NOTES[p].get("technique", "contract-based deductive verification: weakest-precondition style obligations from the SSA of the current source, discharged by Z3/cvc5"),
            "level": NOTES[p].get("level", "proof"),
            "level_note": NOTES[p]["note"],
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check is registered yet")})
m = {"version": 1, "setup_cmd": "./check.sh build", "hooks": {"guard": "none", "enable": "no hooks: contracts are laid over the packages when they are loaded"}, "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
