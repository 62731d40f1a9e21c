#!/usr/bin/env python3
"""No build step: the checks are pure Python. Verifies that the framework parses."""
import compileall, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("sa", "specs", "rules", "tools"):
    for f in sorted(os.listdir(os.path.join(HERE, d))):
        if f.endswith(".py"):
            with open(os.path.join(HERE, d, f)) as fh:
                compile(fh.read(), f, "exec")
print("ok")
