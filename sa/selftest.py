"""Thorough tier: rewrites that keep behaviour must stay quiet; mutations should be reported (in memory, nothing executed)."""
import ast
import json
import os
import random
import time

from . import variants as V
from .index import AnalysisBroken, Class


def _trees(cx):
    mods = {}
    for q in cx.ses.stats["functions"]:
        f = cx.ix.get(q)
        if f is None or q.startswith("specs."):
            continue
        mods.setdefault(f.module.name, []).append(f)
    return mods


def _parse(m):
    with open(m.path, encoding="utf-8") as f:
        return ast.parse(f.read())


def run(pid, cx, seed=1, limit_s=240, verbose=False):
    from check import evaluate

    mods = _trees(cx)
    t0 = time.time()
    base_bad = {cx.key(v) for v in cx.violations()}
    pres = []
    for r in V.REWRITES:
        ov = {}
        for m in mods:
            mod = cx.ix.module(m)
            ov[m] = V.fix(r(_parse(mod)))
        try:
            c2 = evaluate(pid, ov)
            bad = [v for v in c2.violations() if c2.key(v) not in base_bad]
            und = [v for v in c2.verdicts if v.status == "undecided"]
            pres.append((r.__name__, "quiet" if not bad else "ALARM", len(und)))
            if verbose:
                for v in bad:
                    print("  ALARM", r.__name__, v.loc, getattr(v, "target", ""), v.label, v.detail[:1500])
                for v in und:
                    print("  UNDECIDED", r.__name__, v.loc, getattr(v, "target", ""), v.label, v.detail[:300])
        except AnalysisBroken as e:
            pres.append((r.__name__, "broken: %s" % e, 0))
    rnd = random.Random(seed)
    cands = []
    for m, fs in sorted(mods.items()):
        for f in fs:
            for d, i, act in V.mutants(f.node):
                cands.append((m, f, d, i, act))
    rnd.shuffle(cands)
    killed = surv = broken = und = 0
    survivors = []
    jobs = max(1, min(8, os.cpu_count() or 1, len(cands)))
    parts = [_spawn(lambda k=k: _mutants(pid, cx, cands[k::jobs], base_bad, t0 + limit_s)) for k in range(jobs)]
    for pidk, fd in parts:
        with os.fdopen(fd) as f:
            txt = f.read()
        os.waitpid(pidk, 0)
        try:
            r = json.loads(txt)
        except ValueError:
            continue
        killed, surv, broken, und = killed + r[0], surv + r[1], broken + r[2], und + r[3]
        survivors += r[4]
    return {
        "selftest_rewrites": [{"rewrite": n, "outcome": o, "undecided": u} for n, o, u in pres],
        "selftest_mutants": {"candidates": len(cands), "reported": killed, "not_reported": surv, "undecided": und, "broken": broken},
        "selftest_not_reported": sorted(survivors)[:200],
    }


def _find(tree, line, name):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == name and n.lineno == line:
            return n
    return None


def _spawn(fn):
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        try:
            out = json.dumps(fn())
        except BaseException:
            out = ""
        with os.fdopen(w, "w") as f:
            f.write(out)
        os._exit(0)
    os.close(w)
    return p, r


def _mutants(pid, cx, cands, base_bad, until):
    from check import evaluate

    killed = surv = broken = und = 0
    survivors = []
    for m, f, d, i, act in cands:
        if time.time() > until:
            break
        tree = _parse(cx.ix.module(m))
        tgt = _find(tree, f.node.lineno, f.node.name)
        if tgt is None:
            continue
        V.apply_mutant(tgt, i, act)
        V.fix(tree)
        try:
            c2 = evaluate(pid, {m: tree})
        except Exception:  # a mutant may be malformed
            broken += 1
            continue
        bad = [v for v in c2.violations() if c2.key(v) not in base_bad]
        if bad:
            killed += 1
        elif any(v.status == "undecided" for v in c2.verdicts):
            und += 1
            survivors.append("U %s %s" % (f.qual, d))
        else:
            surv += 1
            survivors.append("%s %s" % (f.qual, d))
    return killed, surv, broken, und, survivors
