"""The i-th yielded loss trains what the i-th optimizer owns, for every configuration of every generator-style trainer."""
from sa import driver as D
from sa import ops as O
from sa import structure as S
from sa import terms as T
from sa import trainers as R
from sa.ops import Budget
from sa.terms import NONE


def run(cx):
    n = 0
    for c in R.TRAINERS:
        n += correspond(cx, "reagent.training." + c)
    cx.coverage["trainer configurations enumerated"] = n


def correspond(cx, qual):
    count = "as many losses as optimizers"
    own = "the loss has gradient with respect to the parameters its optimizer owns"
    try:
        t = R.Trainer(cx.ses, qual)
        cases = t.cases()
    except (Budget, RecursionError) as e:
        cx.fact(count, qual, "evaluation", False, str(e), undecided=True)
        return 0
    loc = t.step.loc()
    for path, (ys, os) in cases:
        where = S.show_path(path)
        if ys is None or os is None:
            cx.fact(count, qual, "list shape", False, where, loc, undecided=True)
            continue
        m = {}
        for c, v in path:
            m[c] = T.const(v)
        if T.subst(t.raised, m) is T.TRUE:
            continue
        if not cx.fact(count, qual, "one loss per optimizer", len(ys) == len(os),
                       "%d losses, %d optimizers when %s" % (len(ys), len(os), where), loc).status == "ok":
            continue
        for i, (y, o) in enumerate(zip(ys, os)):
            y = O.strip(y) if y.op == "detach" else y
            softy = S.is_placeholder(y)
            if R.is_soft(o):
                cx.fact("the soft update comes last and meets its placeholder", qual, "optimizer %d (soft update)" % i,
                        i == len(os) - 1 and (softy or y is NONE), "yields %s when %s" % (T.show(y, 5)[:200], where), loc)
                continue
            owners = [S.owner(s) for s in S.segments(R.made_from(o))] if R.made_from(o) is not None else []
            cx.fact("the soft update comes last and meets its placeholder", qual, "loss %d" % i, not softy,
                    "the soft-update placeholder meets optimizer %d when %s" % (i, where), loc)
            for leaf in O._leaves(y):
                if leaf is NONE or softy:
                    continue
                g = D.gradnorm(leaf)
                r = S.reach(g)
                for w in owners:
                    cx.fact(own, qual, "loss %d" % i, w in r,
                            "no gradient reaches %s from %s when %s" % (T.show(w, 5), T.show(g, 12)[:600], where), loc,
                            undecided=w not in r and bool(g.flags & T.F_UNK))
    return len(cases)
