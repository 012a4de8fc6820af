#!/usr/bin/env python3
"""addfix.py PROP [text]: record every unrecorded 'fix:' commit of /repo (whose subject contains text) under PROP."""
import json, subprocess, sys
prop, text = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "")
k = json.load(open("/verif/known_findings.json"))
done = {e.get("commit") for e in k}
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix:") and h not in done and text in s:
        k.append({"property": prop, "status": "fixed", "commit": h, "what": s[5:]})
        print(prop, h, s)
open("/verif/known_findings.json", "w").write("[\n" + ",\n".join(json.dumps(e) for e in k) + "\n]\n")
