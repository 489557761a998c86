#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below."""
import json, os
HOOK_COMMITS = ["09df5b178465995093d2ce09b8953f3d28301938", "3bfcf65eaea7bd95fe70a8e72f89d64174d28543", "39ec9fcbfa7c2bb4f64bd4fc42ebd0874b3adeb8", "28cd250ff1e952244c25bbedf6ad965f830d7996", "347e35c1452dafb3a3ad2617baddc482f3015bdf"]
C = []
def c(id, technique, note):
    C.append({"property": id, "quick_cmd": f"bash run.sh {id} quick", "thorough_cmd": f"bash run.sh {id} thorough",
              "technique": technique, "level": "model_checking", "level_note": note})
NA = []
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
claimed = {x["property"] for x in C} | {x["property"] for x in NA}
for p in props:
    if p not in claimed:
        NA.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' (set by harness/.cargo/config.toml)", "source_commits": HOOK_COMMITS},
     "checks": C, "not_applicable": NA}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
