#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and propinfo.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from propinfo import INFO, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in INFO:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick", "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": INFO[i]["technique"],
                       "level": "exploration", "level_note": INFO[i]["note"]})
    else: na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "make -s -C sim -j8 V=opt && make -s -C sim -j8 V=asan", "hooks": {"guard": "none", "enable": "no hooks in /repo: every seam is below the library (libc, operator new, SQLite VFS and allocator, libpq)", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Known and fixed findings: known_findings.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
