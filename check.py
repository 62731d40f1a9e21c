#!/usr/bin/env python3
"""check.py Pxx [--tier quick|thorough]: decide one property of /repo from its current source."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import threading

from sa.driver import REPO, AnalysisBroken, Session
from sa.context import Context


def known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def title(pid):
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for l in f:
            d = json.loads(l)
            if d["id"] == pid:
                return d["title"]
    return pid


def evaluate(pid, overrides=None, root=None):
    ses = Session(root=root, overrides=overrides)
    cx = Context(ses, pid)
    mod = importlib.import_module("rules." + pid)
    mod.run(cx)
    return cx


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        cx = evaluate(a.pid)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % a.pid)
        return 2
    kn = known()
    listed = {(k["property"], k["key"]): k for k in kn["findings"]}
    new, old = [], []
    for v in cx.violations():
        k = (a.pid, cx.key(v))
        if v.status == "known" and k in listed:
            old.append((v, listed[k]))
        else:
            new.append(v)
    extra = {}
    if a.tier == "thorough":
        from sa import selftest

        extra = selftest.run(a.pid, cx, int(os.environ.get("VERIF_SEED", "1") or 1))
    rep = None
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if new:
        rep = os.path.join(HERE, "evidence", "%s.report.txt" % a.pid)
        with open(rep, "w") as f:
            f.write("property %s: %s\n\n" % (a.pid, title(a.pid)))
            for v in new:
                f.write("%s\n  construct: %s\n  observable: %s\n  %s\n\n" % (
                    v.loc, cx.construct(v), v.label, v.detail.replace(" ; ", "\n  ")))
    write_evidence(a, cx, new, old, extra, time.time() - t0)
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))
    und = [v for v in cx.verdicts if v.status == "undecided"]
    for v in und:
        print("UNDECIDED property=%s %s: %s (%s)" % (a.pid, cx.construct(v), v.label, v.detail[:300]))
    for v in new:
        print("%s: %s: %s: %s" % (v.loc, cx.construct(v), v.label, v.detail.split(" ; full found")[0][:1500]))
    if new:
        print("VIOLATION property=%s replay=%s" % (a.pid, rep))
        return 1
    print("OK property=%s obligations=%d functions=%d callsites=%d undecided=%d wall=%.2fs" % (
        a.pid, len(cx.verdicts), len(cx.ses.stats["functions"]), cx.ses.stats["callsites"], len(und), time.time() - t0))
    return 0


def write_evidence(a, cx, new, old, extra, wall):
    ses = cx.ses
    funcs = sorted(ses.stats["functions"])
    mod = importlib.import_module("rules." + a.pid)
    obligations = [
        {"construct": cx.construct(v), "observable": v.label, "at": v.loc, "rule": v.rule, "result": v.status}
        for v in cx.verdicts
    ]
    cov = {
        "explanation": (
            "Each obligation compares one observable (return value, yielded losses, attribute state on exit, ordered "
            "calls, rejection condition) of the named construct, built from its current source as a gated value graph, "
            "with the reference definition of the property under a term algebra; or applies the named structural rule. "
            "No repository code is executed."
        ),
        "rules_applied": sorted({v.rule for v in cx.verdicts}),
        "obligations": len(cx.verdicts),
        "discharged": sum(v.status == "ok" for v in cx.verdicts),
        "undecided": sum(v.status == "undecided" for v in cx.verdicts),
        "known_findings": len(old),
        "functions_analysed": len([f for f in funcs if not f.startswith("specs.")]),
        "functions": [f for f in funcs if not f.startswith("specs.")],
        "call_sites_resolved": ses.stats["callsites"],
        "files_parsed": ses.ix.parsed_files,
        "constructs_outside_evaluator": ses.stats["unknown"],
        "obligation_list": obligations,
    }
    cov.update(cx.coverage)
    cov.update(extra)
    ev = {
        "property": a.pid,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": [
            "tensor dtype/device conversions and view-preserving reshapes are identity on values",
            "arithmetic is exact; external libraries (torch, numpy, pandas) behave as documented",
        ] + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": [
            {"construct": cx.construct(v), "observable": v.label, "at": v.loc, "detail": v.detail[:4000]} for v in new
        ],
    }
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(40000)
    rc = [2]

    def go():
        rc[0] = main()

    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
