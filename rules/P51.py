"""What is saved, serialised, shipped to a worker or published to observers comes back as it was."""
import ast

from sa import structure as S
from sa import wellformed as W
from sa.index import Class

T = "reagent.ope.trainers.rl_tabular_trainers.TabularPolicy."
M = "reagent.ope.estimators.types.Trainer."
J = "reagent.json_serialize."
U = "reagent.core.multiprocess_utils."
O = "reagent.core.tracker.ObservableMixin."


def saved_networks(cx):
    """a trainer saves networks it has, and every network its constructor gives to an optimizer"""
    ix, ses = cx.ix, cx.ses
    base = ix.need("reagent.training.trainer.Trainer")
    members = W.Members(ix, [k for m in ix.all_modules() if m.name.startswith("reagent.training") for k in m.syms.values() if isinstance(k, Class)])
    seen = 0
    for m in sorted(ix.all_modules(), key=lambda m: m.name):
        if not m.name.startswith("reagent.training"):
            continue
        for c in [k for k in m.syms.values() if isinstance(k, Class)]:
            if c.qual == base.qual or base.qual not in [k.qual for k in ix.mro(c)]:
                continue
            f = ix.find_method(c, "warm_start_components")
            if f is None or f.cls is base:
                continue
            it = ses.interp(set())
            st, me, _ = ses.make_self(it, c)
            ret = ses.run(it, f, [me], {}, st, me, c).ret
            ses.done(it)
            optimised = set()
            for k in ix.mro(c):
                i = k.methods.get("__init__")
                for n in ast.walk(i.node) if i else ():
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "parameters" and isinstance(n.func.value, ast.Attribute) \
                            and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == "self":
                        optimised.add(n.func.value.attr)
            cs = S.cases([ret])
            und = any(e[0] is None or any(x.op != "const" for x in e[0]) for _, e in cs)
            named = set() if und else {x.args[1] for _, e in cs for x in e[0]}
            missing = [x for x in sorted(named) if members.has(c, x) is False]
            seen += 1
            cx.fact("a trainer's saved components exist", c.qual, "saved components", not missing,
                    "names %s, which %s does not have" % (", ".join(missing), c.name), f.loc(), undecided=und)
            if named and not und:
                left = sorted(optimised - named)
                cx.fact("every optimised network is saved", c.qual, "saved networks", not left, "trains but does not save %s" % ", ".join(left), f.loc())
    cx.need(seen >= 10, "trainers with saved components (%d found)" % seen)
    cx.coverage["trainers_with_saved_components"] = seen


def run(cx):
    saved_networks(cx)
    for c, s in (("ranking.seq2slate_trainer.Seq2SlateTrainer", "with_baseline"), ("ranking.seq2slate_sim_trainer.Seq2SlateSimulationTrainer", "with_baseline"),
                 ("ranking.seq2slate_dr_trainer.Seq2SlateDifferentiableRewardTrainer", "slate_net"), ("ranking.seq2slate_attn_trainer.Seq2SlatePairwiseAttnTrainer", "slate_net"),
                 ("ranking.seq2slate_tf_trainer.Seq2SlateTeacherForcingTrainer", "slate_net"), ("reinforce.Reinforce", "with_value"), ("ppo_trainer.PPOTrainer", "with_value"),
                 ("world_model.mdnrnn_trainer.MDNRNNTrainer", "memory_net"), ("world_model.seq2reward_trainer.Seq2RewardTrainer", "seq_net"),
                 ("reward_network_trainer.RewardNetTrainer", "reward_net")):
        cx.same("reagent.training." + c + ".warm_start_components", "persist." + s, "ret", init=False)
    n = dict(init=False)
    stored = lambda p: p.calls("open", "dump", "load", label="file traffic")
    cx.same(T + "save", "persist.policy_save", "ret", stored, **n)
    cx.same(T + "load", "persist.policy_load", "ret", stored, "attrs:_action_space,_epsilon,_state_space,_exploitation_prob,_exploration_prob,_uniform_probs", **n)
    lin = dict(cls="reagent.ope.trainers.linear_trainers.LassoTrainer", init=False)
    cx.same(M + "reset", "persist.model_reset", "attrs:_model", **n)
    cx.same(M + "is_trained", "persist.trained", "ret", **n)
    cx.same(M + "save_model", "persist.model_save", stored, **n)
    cx.same(M + "load_model", "persist.model_load", stored, "attrs:_model", **n)

    cx.same(J + "object_to_json", "persist.to_json", "ret", opaque={"prepare_for_json"})
    cx.same(J + "prepare_for_json", "persist.plain", "ret", opaque={"prepare_for_json"})
    cx.same(J + "json_to_object", "persist.of_json", "ret", opaque={"from_json"})
    cx.same(J + "from_json", "persist.restored", "ret", opaque={"from_json"})

    cx.same(U + "deserialize_and_run", "persist.run_remote", "ret")
    cx.same(U + "wrap_function_arguments", "persist.wrap_call", "ret")
    cx.same(U + "unwrap_function_outputs", "persist.unwrap", "ret")

    cx.same(O + "add_observer", "persist.observe", "ret", "attrs:_observers", "written", lambda p: p.calls("append", kinds=("call", "inplace", "setitem"), label="observers"), **n)
    cx.same(O + "add_observers", "persist.observe_all", "ret", "calls:add_observer", opaque={"add_observer"}, **n)
    cx.same(O + "notify_observers", "persist.notify", lambda p: p.calls("update", grad=True, label="published values"), **n)
    cx.same("reagent.core.utils.lazy_property.__init__", "persist.lazy_init", "attrs:_fget,__name__")
    cx.same("reagent.core.utils.lazy_property.__get__", "persist.lazy_get", "ret", lambda p: p.calls("_fget", "setattr", kinds=("call", "store"), label="evaluation"), **n)
