#!/usr/bin/env python3
"""addfix.py PROP 'what failed' : records the /repo HEAD fix commit in tools/fixes.json (several: pass subject as third arg)."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{V}/tools/fixes.json"
d = json.load(open(p)) if os.path.exists(p) else {}
subj = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s"], text=True).strip()
d[subj] = [sys.argv[1], sys.argv[2]]
json.dump(d, open(p, "w"), indent=1)
