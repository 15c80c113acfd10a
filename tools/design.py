#!/usr/bin/env python3
"""Writes DESIGN.md from docs/design.md: the lines @bounds@ and @seeded@ become the bounds of every
property (from props/) and the table of planted bugs (from seeded/)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def bounds():
    out = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        f = os.path.join(HERE, "props", p["id"].lower() + ".py")
        if os.path.exists(f):
            c = constants(f)
            out.append("* **%s** %s\n  Bounds: %s.\n  Outside: %s." % (p["id"], p["title"], c["BOUNDS"], c["OUTSIDE"]))
    return "\n".join(out)


MISSED = """c27-shaper-default c34-group-members c01-block c18-foreign-namespace c20-file-cache c31-reference-kept c25-samples-kept c30-matrix-scratch c26-formats-kept c13-pair-memo c12-memo-rounded c14-last-cell c06-features c01-same-red-green c05-codes-memo c10-antilog-limit c24-resampled-cap c06-narrow c28-row-carry c25-shaper-samples c26-no-extension""".split()


def seeded():
    out = ["| id | property | needs | first missed |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), "yes" if n in MISSED else ""))
    return "\n".join(out)


text = open(os.path.join(HERE, "docs", "design.md")).read()
text = text.replace("@bounds@", bounds()).replace("@seeded@", seeded())
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
