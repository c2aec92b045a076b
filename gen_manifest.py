#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json
ch = json.load(open("checks.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ch:
        m = ch[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} thorough",
            technique=m["technique"], level=m.get("level", "exploration"), level_note=m["note"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
    notes="No hooks are needed in /repo: every component boundary of ant is an interface, so the harness (harness/, laid over /repo with go test -overlay, compiled with the race detector) instruments from outside. The only commits in /repo are repairs (fix:), listed in KNOWN_FINDINGS.txt."),
    open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
