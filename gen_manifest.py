#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {}
NOTE = {}
exec(open(os.path.join(here, "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": tech or DEFAULT_TECH, "level": "other",
            "level_note": note[1:] if note.startswith("=") else note + " " + DEFAULT_NOTE})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh build",
     "hooks": {"guard": "--cfg verif_hooks and --cfg verif_hooks_reg (RUSTFLAGS)", "enable": "harness/.cargo/config.toml passes rustflags --cfg verif_hooks --cfg verif_hooks_reg when the harness builds /repo as a path dependency", "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Known findings: known_findings.json."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
