#!/usr/bin/env python3
"""replay.py FILE: runs the recorded inputs of a violation against the real code."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
p = subprocess.Popen(["/opt/venv/bin/python", HERE + "/engine/replay_server.py"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                     env=dict(os.environ, PYTHONPATH="/opt/vp/py2"), cwd=HERE, text=True)
out, _ = p.communicate(json.dumps({"id": 1, "module": r["module"], "scenario": r["scenario"], "inputs": r["inputs"]}) + "\n")
m = json.loads(out.splitlines()[-1])
print(r["scenario"], json.dumps(r["inputs"]))
print(m["status"])
for f in m["failures"]:
    print("  %s: %s" % tuple(f))
if m["status"] == "pass" and "soft" in r:
    k, lab, dev = r["soft"]
    for s in m.get("soft", []):
        if s[0] == k and abs(s[2] - dev) < 0.2 * abs(dev):
            print("  %s: %s (within single precision tolerance, but the deviation the encoded code has)" % (lab, s[3]))
            sys.exit(1)
sys.exit(0 if m["status"] == "pass" else 1)
