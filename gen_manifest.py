#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness's plan."""
import json, subprocess, sys
bin_ = sys.argv[1] if len(sys.argv) > 1 else "harness/target/debug/tonbo-verif"
claimed = subprocess.check_output([bin_, "list"], text=True).split()
notes = json.load(open("notes.json"))
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)
    if p["id"] in claimed:
        n = notes.get(p["id"], {})
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
            "technique": n.get("technique", "property-based testing"),
            "level": "exploration",
            "level_note": n.get("note", ""),
        })
    else:
        na.append({"property": p["id"], "reason": notes.get(p["id"], {}).get("reason", "check not built yet")})
hooks = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "2cdd5e0..HEAD"], text=True)
commits = [l.split()[0] for l in hooks.splitlines() if l.split(" ", 1)[1].startswith("verif:")][::-1]
json.dump({
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {
        "guard": "cfg(tonbo_verif) and cfg(tonbo_verif_full)",
        "enable": "RUSTFLAGS=\"--cfg tonbo_verif --cfg tonbo_verif_full\" (see build.sh)",
        "source_commits": commits,
    },
    "checks": checks,
    "not_applicable": na,
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
