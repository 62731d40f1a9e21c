"""Soft target updates: the update itself, its checks, and the pairing of targets with their sources in every trainer."""
from sa import structure as S
from sa import terms as T
from sa import trainers as R
from sa.ops import Budget

U = "reagent.optimizer.soft_update.SoftUpdate."


def run(cx):
    cx.same(U + "step", "soft_update.step", "retv", lambda p: p.calls(kinds=("inplace",), label="in-place updates"))
    cx.same(U + "__init__", "soft_update.init", "raises=")
    for c in R.TRAINERS:
        pairing(cx, "reagent.training." + c)
    L = "reagent.training.rl_trainer_pytorch.RLTrainer."
    inplace = lambda p: p.calls(kinds=("inplace",), label="in-place updates")
    cx.same(L + "_soft_update", "soft_update.legacy", inplace)
    cx.same(L + "_maybe_soft_update", "soft_update.maybe_legacy", inplace)


def pairing(cx, qual):
    rule = "every target network is moved toward the network it copies"
    try:
        t = R.Trainer(cx.ses, qual)
        cases = t.cases()
    except (Budget, RecursionError) as e:
        cx.fact(rule, qual, "evaluation", False, str(e), undecided=True)
        return
    loc = t.conf.loc()
    for path, (ys, os) in cases:
        where = S.show_path(path)
        if os is None:
            cx.fact(rule, qual, "optimizer list", False, "not a list when " + where, loc, undecided=True)
            continue
        soft = [o for o in os if R.is_soft(o)]
        targets = set()
        for o in soft:
            a = R.soft_args(o)
            tp, sp = S.segments(a["target_params"]), S.segments(a["source_params"])
            if any(x.op in ("ite", "unk") for x in tp + sp):
                cx.fact(rule, qual, "soft-update parameters", False, where, loc, undecided=True)
                continue
            cx.fact(rule, qual, "as many targets as sources", len(tp) == len(sp), "%d targets, %d sources when %s" % (len(tp), len(sp), where), loc)
            for x, y in zip(tp, sp):
                x, y = S.owner(x), S.owner(y)
                targets.add(x)
                src = R.source_of(x)
                cx.fact(rule, qual, "target %s" % T.show(x, 4), src is y,
                        "paired with %s, copies %s, when %s" % (T.show(y, 4), T.show(src, 4) if src is not None else "nothing", where), loc)
            tau = a.get("tau")
            cx.fact("soft updates use the configured rate", qual, "tau", tau is not None and tau.op == "attr" and tau.args[1] == "target_update_rate",
                    "tau is %s when %s" % (T.show(tau, 6) if tau is not None else "defaulted", where), loc)
        if ys is not None:
            used = set()
            for y in ys:
                used |= R.frozen_networks(y)
            for n in sorted(used, key=lambda n: n.dig):
                if R.source_of(n) is not None:
                    cx.fact("every target network read by the losses is soft-updated", qual, "network %s" % T.show(n, 4), n in targets,
                            "never moved when " + where, loc)
