#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and tools/claims.json (by hand, never by a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
cl = json.load(open(f"{V}/tools/claims.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cl["claimed"]:
        checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --tier thorough",
                       "technique": "Verus contracts on mechanically extracted functions; replay on the real library",
                       "level": "proof", "level_note": cl["claimed"][i], "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": cl["not_applicable"][i]})
json.dump({"version": 1,
           "setup_cmd": "cargo build --offline --release --quiet --manifest-path extract/Cargo.toml && cargo build --offline --release --quiet --manifest-path harness/Cargo.toml --target-dir harness/target/full && cargo build --offline --release --quiet --no-default-features --manifest-path harness/Cargo.toml --target-dir harness/target/min",
           "checks": checks, "not_applicable": na, "notes": cl["notes"]}, open(f"{V}/MANIFEST.json", "w"), indent=1)
