#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of implemented checks (mc/src/props/mod.rs) and tools/notes.json."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
done = [x.strip().upper() for x in re.search(r'props!\((.*?)\);', open(root + '/mc/src/props/mod.rs').read(), re.S).group(1).split(',') if x.strip()]
notes = json.load(open(root + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in done:
        n = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": n.get("technique", "model checking: exhaustive bounded enumeration of inputs and operation histories on the real code against a reference model"),
            "level": "model_checking",
            "level_note": n.get("note", "Every state of the bounded space stated in DESIGN.md is enumerated on the real code and compared with an independent reference model; nothing is said beyond the bounds.")})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na}
if notes.get("hooks"): m["hooks"] = notes["hooks"]
if notes.get("notes"): m["notes"] = notes["notes"]
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
