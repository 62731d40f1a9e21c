"""Collects the obligations of one property check."""
import ast
import os

from . import canon
from . import driver as D
from .driver import Pair, Verdict
from .index import AnalysisBroken


class Context:
    def __init__(self, ses, pid):
        self.ses = ses
        self.pid = pid
        self.ix = ses.ix
        self.verdicts = []
        self.coverage = {}
        self._ghosts = None

    # value-graph obligations ------------------------------------------------
    def same(self, target, spec, *obs, known=None, min_inst=0, alts=(), **kw):
        """target and reference agree on the observables obs (strings or callables on the pair)

        alts: further references, equivalent to the first under the property's preconditions; agreeing with one is enough
        known: {observable label: (reference of the listed defect, key)}"""
        kw.setdefault("watch", {n for o in obs if isinstance(o, str) and o.startswith("calls:") for n in o[6:].split(",")})
        try:
            p = Pair(self.ses, target, spec, **kw)
            run_obs(p, obs)
        except AnalysisBroken as e:
            # a private helper may be renamed or inlined by a refactoring: its obligation is then open, not violated
            if target.split(".")[-1].startswith("_") and not target.endswith("__") and self.ses.ix.get(target.rsplit(".", 1)[0]) is not None:
                self.fact("value-graph equality with " + spec, target, "anchor", False, str(e), undecided=True)
                return None
            raise
        except Exception as e:  # a construct the evaluator cannot digest
            if os.environ.get("VERIF_DEBUG"):
                raise
            self.fact("value-graph equality with " + spec, target, "evaluation", False, "evaluator failed: %r" % (e,), undecided=True)
            return None
        for v in p.verdicts:
            v.rule = "value-graph equality with " + spec
            v.target = target if "cls" not in kw else kw["cls"] + "." + target.split(".")[-1]
            if v.status == "violation" and known:
                alts = known if isinstance(known, list) else [known]
                for alt in alts:
                    q = Pair(self.ses, target, alt, **kw)
                    run_obs(q, obs)
                    m = [w for w in q.verdicts if w.label == v.label]
                    if m and m[0].status == "ok":
                        v.status = "known"
                        v.alt = alt
                        break
        if any(v.status == "violation" for v in p.verdicts):
            self.inlined(p, target, spec, obs, kw)
        for alt in alts:
            if any(v.status == "violation" for v in p.verdicts):
                q = Pair(self.ses, target, alt, **kw)
                run_obs(q, obs)
                if all(w.status == "ok" for w in q.verdicts):
                    for v in p.verdicts:
                        v.status = "ok"
        self.verdicts += p.verdicts
        return p

    def inlined(self, p, target, spec, obs, kw):
        """a helper the reference calls may have been inlined: compare again with the helper's former body in place of the call"""
        if self._ghosts is None:
            names, trees = canon.ghosts(self.ix)
            ses = None
            if names:
                ses = D.Session(self.ses.root, trees)
                ses.ix.renamed = {}
                ses.ix.overrides = {m.name: m.tree for m in self.ix.all_modules()}
                ses.ix.overrides.update(trees)
            self._ghosts = (names, ses)
        names, ses = self._ghosts
        if not names or not names & {getattr(n, "attr", getattr(n, "id", None)) for n in ast.walk(p.sp.module.tree)} | names & set(kw.get("opaque", ())):
            return
        try:
            q = Pair(ses, target, spec, **dict(kw, opaque={x for x in kw.get("opaque", ()) if x.split(".")[-1] not in names}))
            run_obs(q, obs)
        except Exception as e:
            return
        m = {w.label: w for w in q.verdicts}
        for v in p.verdicts:
            w = m.get(v.label)
            if v.status == "violation" and w is not None and w.status == "ok":
                v.status = "undecided" if any(n in v.label for n in names) else "ok"

    def fact(self, rule, construct, label, ok, detail="", loc="", undecided=False, known=False):
        v = Verdict("undecided" if undecided else "ok" if ok else "known" if known else "violation", label, detail, loc)
        v.rule = rule
        v.target = construct
        self.verdicts.append(v)
        return v

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def construct(self, v):
        return getattr(v, "target", "?")

    def key(self, v):
        return "%s#%s" % (getattr(v, "target", "?"), v.label)

    def violations(self):
        return [v for v in self.verdicts if v.status in ("violation", "known")]


def run_obs(p, obs):
    for o in obs:
        if callable(o):
            o(p)
        elif o == "ret":
            p.ret()
        elif o == "retv":
            p.ret(grad=False)
        elif o == "yields":
            p.yields()
        elif o == "written":
            p.written()
        elif o == "raises":
            p.raises()
        elif o == "raises=":
            p.raises(exact=True)
        elif o.startswith("calls:"):
            p.calls(*o[6:].split(","))
        elif o.startswith("attrs:"):
            p.attrs(*o[6:].split(","))
        elif o.startswith("attrsg:"):
            p.attrs(*o[7:].split(","), grad=True)
        else:
            raise ValueError(o)
