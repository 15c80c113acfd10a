#!/usr/bin/env python3
"""check.py C01 quick|thorough [scenario glob]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("CLFV_STARTED") != "1":
    os.environ["CLFV_STARTED"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/veriftools/pyvenv/bin/python", ["/opt/veriftools/pyvenv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.setrecursionlimit(20000)

from engine import runner       # noqa: E402

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
rc = runner.Check(prop, tier, sys.argv[3] if len(sys.argv) > 3 else None).run()
sys.stdout.flush()
os._exit(rc)
