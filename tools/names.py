#!/usr/bin/env python3
"""Writes names.json: the names declared in /repo when the rules were written (see sa/canon.py). Run by hand after a commit to /repo."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import canon

trees = []
for dp, dn, fn in sorted(os.walk("/repo/reagent")):
    for f in sorted(fn):
        if f.endswith(".py"):
            n = os.path.relpath(os.path.join(dp, f), "/repo")[:-3].replace(os.sep, ".")
            n = n[:-9] if n.endswith(".__init__") else n
            if ".test." in n or ".tests." in n:
                continue
            trees.append((n, ast.parse(open(os.path.join(dp, f), encoding="utf-8").read())))
with open(os.path.join(HERE, "names.json"), "w") as f:
    json.dump(canon.snapshot(trees), f, separators=(",", ":"), sort_keys=True)
    f.write("\n")
