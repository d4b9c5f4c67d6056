#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the analyser's own list of checks."""
import json, subprocess, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl") if l.strip()]
out = subprocess.run([f"{here}/bin/gosms-analyzer", "-list"], capture_output=True, text=True, check=True).stdout
have = {d["id"]: d for d in map(json.loads, out.splitlines())}
na = json.load(open(f"{here}/tools/not_applicable.json"))
checks, notapp = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": have[i]["technique"], "level": have[i]["level"],
                       "level_note": have[i]["rule"]})
    else:
        notapp.append({"property": i, "reason": na.get(i, "no static check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": notapp,
     "notes": "Every check runs the same analyser (analyzer/, Go, built offline from vendored golang.org/x/tools) over /repo's current working tree; see DESIGN.md."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{here}/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed;", len(notapp), "not claimed:", [x["property"] for x in notapp])
