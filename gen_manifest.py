#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS, TECH, NOTE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 vbuild.py plain asan tsan && python3 pydrv/build.py && python3 pydrv/build.py asan", "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: the checks observe the public interface, the MPI calls (through /verif/simmpi) and the sanitizers; the define is reserved and unused", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "Each check builds /repo's sources with the monitors (vbuild.py), runs the parts listed in checks.py over 8 processes and judges what they report (check)."}
for i in ids:
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]})
    else: m["not_applicable"].append({"property": i, "reason": "the monitor for this property is still being built"})
json.dump(m, open("MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks")
