"""Generator-style trainers: what a training step yields against what configure_optimizers declares."""
from . import driver as D
from . import ops as O
from . import structure as S
from . import terms as T
from .ops import Budget
from .terms import NONE, Term, mk, sym

TRAINERS = [
    "dqn_trainer.DQNTrainer",
    "qrdqn_trainer.QRDQNTrainer",
    "c51_trainer.C51Trainer",
    "parametric_dqn_trainer.ParametricDQNTrainer",
    "sac_trainer.SACTrainer",
    "td3_trainer.TD3Trainer",
    "discrete_crr_trainer.DiscreteCRRTrainer",
    "slate_q_trainer.SlateQTrainer",
]
OPQ = {"log", "get_tiled_batch", "select_slate", "as_feature_data", "repeat_interleave", "get_valid_actions_from_imitator",
       "soft_update_result"}


class Trainer:
    """yields and optimizers of one trainer class, evaluated from the current source"""

    def __init__(self, ses, qual):
        ix = ses.ix
        self.qual = qual
        cls = ix.need(qual)
        it = ses.interp(OPQ)
        st, me, _ = ses.make_self(it, cls)
        self.step = ix.find_method(cls, "train_step_gen")
        self.conf = ix.find_method(cls, "configure_optimizers")
        if self.step is None or self.conf is None:
            raise D.AnalysisBroken("anchor not found: %s.train_step_gen/configure_optimizers" % qual)
        b = sym("batch")
        an = self.step.node.args.args[1].annotation
        k = D._ann_class(ix, self.step.module, an) if an is not None else None
        if k is not None:
            it.objcls[b] = k
        run = ses.run(it, self.step, [me, b, sym("batch_idx")], {}, st, me, cls)
        self.yields = run.yields()
        self.raised = run.raises()
        opt = ses.run(it, self.conf, [me], {}, st, me, cls)
        self.opts = opt.ret
        ses.done(it)

    def cases(self):
        return S.cases([self.yields, self.opts])


def is_soft(o):
    return o.op == "new" and o.args[0].endswith(".SoftUpdate")


def soft_args(o):
    d = dict(o.args[2])
    for n, v in zip(("target_params", "source_params", "tau"), o.args[1]):
        d.setdefault(n, v)
    return d


def made_from(o):
    """parameters an optimizer is built over"""
    if o.op == "call" and o.args[0].op == "attr" and o.args[0].args[1] == "make_optimizer":
        return o.args[1][0] if o.args[1] else dict(o.args[2]).get("params")
    if o.op == "new" or o.op == "call":
        return o.args[1][0] if o.args[1] else dict(o.args[2]).get("params")
    return None


def source_of(t):
    """the network a target network is a copy of: a term, an attribute name, or None"""
    if t.op == "op" and t.args[0] == "copyof":
        return t.args[1][0]
    if t.op == "attr" and t.args[1].endswith("_target"):
        return mk("attr", t.args[0], t.args[1][: -len("_target")])
    return None


def frozen_networks(t):
    """target networks a value reads"""
    out = set()
    for c in T.subterms(t):
        if c.op == "call" and D.frozen(c):
            f = c.args[0]
            while f.op == "attr" and not f.args[1].endswith("_target"):
                f = f.args[0]
            out.add(f)
    return out
