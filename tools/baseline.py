#!/usr/bin/env python3
"""Regenerate baseline.json (shape of every function under contract, and its tags) from /repo's tree.
Run by hand after contracts change; never by a check."""
import json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {"tags": {}}
for name, feats in [("full", "argmin,rayon,checkpointing"), ("min", "argmin")]:
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([f"{V}/extract/target/release/extract", "--repo", "/repo", "--contracts", f"{V}/contracts", "--features", feats, "--out", f"{d}/o.rs", "--map", f"{d}/o.json"], check=True)
        m = json.load(open(f"{d}/o.json"))
        assert not m["problems"], m["problems"]
        out[name] = {f["fn"]: [f["loops"], f["closures"]] for f in m["functions"]}
        for c in m["clauses"]:
            t = set(out["tags"].get(c["fn"], [])) | set(c["tags"])
            out["tags"][c["fn"]] = sorted(t)
json.dump(out, open(f"{V}/baseline.json", "w"), indent=0, sort_keys=True)
