#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json; claims the properties that have a rules/<id>.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import NA, P

checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in P:
        st = d["statement"]
        assert len(d["title"]) <= 80, d["id"]
        assert st.count(". ") + 1 <= 3, (d["id"], st.count(". ") + 1)
        for x in d["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (d["id"], x)
        f.write(json.dumps({
            "id": d["id"], "title": d["title"], "statement": st,
            "quantifier": {"over": d["over"], "text": d["qtext"]},
            "why_tests_cant": d["why"],
            "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]},
        }) + "\n")
        if os.path.exists(os.path.join(HERE, "rules", d["id"] + ".py")):
            checks.append({
                "property": d["id"],
                "quick_cmd": "python3 check.py %s --tier quick" % d["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                "technique": d["technique"],
                "level": "other",
                "level_note": "Static: decides every listed obligation for all inputs and configurations from the current source, under exact "
                              "arithmetic and documented library semantics; constructs outside the evaluator are reported as undecided.",
            })
        else:
            na.append({"property": d["id"], "reason": "machinery not built yet"})
    for id, title, st, over, q, why in NA:
        f.write(json.dumps({
            "id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
            "anchors": {"files": {"N01": ["reagent/training"], "N02": ["reagent/ope", "reagent/evaluation"], "N03": ["serving"],
                                  "N04": ["reagent/prediction"], "N05": ["reagent/training/gradient_free"]}[id],
                        "mechanism": [{"name": "n/a", "where": "see not_applicable"}]},
        }) + "\n")
        na.append({"property": id, "reason": why})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
