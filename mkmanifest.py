#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py."""
import json
from registry import PROPS, NA
checks = []
for p, d in PROPS.items():
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
        technique=d["technique"], level=d["level"], level_note=d["note"]))
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="cfg(zuban_verif)", enable="RUSTFLAGS=--cfg zuban_verif (no hook is needed so far: private items are reached by extraction)", source_commits=[]),
  checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="Contracts: contracts/*.rs over functions extracted from /repo by tools/vx on every run; replay and bounded stand-ins: harness/. See DESIGN.md.")
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
