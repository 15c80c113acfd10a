"""Replays models against the real code.  JSON lines on stdin/stdout; started with the
project's interpreter: /opt/venv/bin/python, PYTHONPATH=/opt/vp/py2.
Request: {"id":.., "module": "c07", "scenario": "..", "inputs": {...}}"""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/opt/vp/py2")
import py2compat                                    # noqa: E402,F401
sys.path.insert(0, "/repo/python")
sys.path.insert(0, HERE + "/stubs")
sys.path.insert(0, HERE)

out = os.fdopen(os.dup(1), "w")
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
sys.stdout = open(os.devnull, "w")

import importlib                                    # noqa: E402
import warnings                                     # noqa: E402
warnings.simplefilter("ignore")
from engine import concrete, post                   # noqa: E402


def main():
    mods = concrete.Mods(post.post)
    np = mods.numpy()
    np.seterr(all="ignore")
    err = None
    try:
        mods.get("aces.clf")
    except BaseException as e:
        err = "%s: %s" % (type(e).__name__, e)
    out.write(json.dumps({"ready": err is None, "error": err}) + "\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            m = importlib.import_module("props." + req["module"])
            sc = m.SCENARIOS[req["scenario"]]
            st, fl, obs, soft = concrete.run(sc.fn, req["inputs"], mods, sc.params)
            r = {"id": req["id"], "status": st, "failures": fl[:10], "soft": soft, "count": len(obs), "obs": [[a, b if b == b and abs(b) != float("inf") else str(b)] if isinstance(b, float) else [a, str(b)[:200]] for a, b in obs[:400]]}
        except BaseException as e:
            r = {"id": req["id"], "status": "error", "failures": [["server", "%s: %s" % (type(e).__name__, e)]], "obs": []}
        out.write(json.dumps(r) + "\n")
        out.flush()


main()
