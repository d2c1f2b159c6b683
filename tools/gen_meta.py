#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place, so that they stay in step."""
import json, subprocess, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from meta import PROPS, NOT_APPLICABLE, HOOK_COMMITS, NOTES

with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, (p["id"], len(q["title"]))
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if "technique" not in p:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash run.sh check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh check {p['id']}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
if HOOK_COMMITS:
    m["hooks"] = {"guard": "cfg(hotmeal_sim) in hotmeal-wasm (never set by the repository)", "enable": "the build script of /verif/worldb/shims/hotmeal-wasm sets the cfg", "source_commits": HOOK_COMMITS}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(f"{HERE}/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
    print("valid")
except ImportError:
    print("jsonschema not available (use python3-vt)")
