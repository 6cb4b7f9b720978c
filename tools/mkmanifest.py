#!/usr/bin/env python3
"""Writes MANIFEST.json. usage: mkmanifest.py C05 C07 ...  (the claimed properties)"""
import json, sys, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = sys.argv[1:]
props = [json.loads(l) for l in open(f"{d}/properties.jsonl") if l.strip()]
na = json.load(open(f"{d}/tools/not_applicable.json"))
tech = json.load(open(f"{d}/tools/technique.json"))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [], "notes": "One binary (sim/) linked against /repo's crate; see DESIGN.md. Replay a reported violation with: target/x86_64-unknown-linux-gnu/debug/ksim replay FILE. No hooks were needed in /repo."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "evidence_file": f"evidence/{i}.json", "technique": tech[i], "level": "exploration", "level_note": "Seeded search over workloads, schedules and fault sequences within stated bounds; a clean batch is not a proof."})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "Check not built yet.")})
json.dump(m, open(f"{d}/MANIFEST.json", "w"), indent=1)
open(f"{d}/MANIFEST.json", "a").write("\n")
