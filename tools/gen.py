#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table (props_*.py)."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
props, notapp = [], []
for m in ("props_lex", "props_json", "props_parse"):
    if os.path.exists(os.path.join(here, m + ".py")):
        mod = importlib.import_module(m)
        props += mod.PROPS
        notapp += getattr(mod, "NOT_APPLICABLE", [])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
na = {x["property"] for x in notapp}
man = {
    "version": 1,
    "setup_cmd": "./check build",
    "hooks": {"guard": "none", "enable": "no hooks: every check drives public interfaces only", "source_commits": []},
    "checks": [{
        "property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
    } for p in props if p["id"] not in na],
    "not_applicable": notapp,
    "notes": "Every check builds a harness crate under mc/ against /repo's working tree and enumerates a bounded space of executions of the real code against an independent reference model. Counterexamples: replays/<id>-<n>.case, replayed with ./check replay <file>.",
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(props), "properties")
