"""Off-policy estimators over episodes."""
S = "reagent.ope.estimators.sequential_estimators."
AVG = {"RunningAverage"}
HELP = {"_log_reward", "_estimate_value", "_calc_weights", "state_value", "state_action_value", "_mdps_value", "_compute_average_v",
        "_compute_loss", "append", "_collect_data", "_sample_batch", "_compute_estimates", "_get_convex_f", "_build_function", "reset"}


def run(cx):
    def same(name, spec, *obs, **kw):
        kw.setdefault("opaque", HELP - {name.split(".")[-1]})
        kw.setdefault("inline_new", AVG)
        cx.same(S + name, "sequential." + spec, *(obs or ("ret",)), **kw)

    same("RandomRLPolicy.__init__", "random_init", "attrs:_action_space,_device,_prob")
    same("RandomRLPolicy.action_dist", "random_dist", init=False)
    same("EpsilonGreedyRLPolicy.__init__", "epsilon_init", "attrs:_action_space,_device,_policy,_exploitation_prob,_exploration_prob")
    same("EpsilonGreedyRLPolicy.action_dist", "epsilon_dist", "ret", lambda p: p.calls(kinds=("setitem",), label="reweighting"), init=False)
    same("ValueFunction.__call__", "value_of")
    same("RLEstimator._log_reward", "log_reward")
    same("RLEstimator._estimate_value", "estimate_value")
    same("DMEstimator.evaluate", "direct", "ret", "calls:append")
    same("IPSEstimator.__init__", "ips_init", "attrs:_device,_weight_clamper,_weighted")
    same("MAGICEstimator.__init__", "magic_init", "attrs:_device,_weight_clamper,_weighted")
    same("IPSEstimator._calc_weights", "weights")
    same("IPSEstimator.evaluate", "ips", "ret", "calls:append")
    same("DoublyRobustEstimator.evaluate", "doubly_robust", "ret", "calls:append")
    same("MAGICEstimator.evaluate", "magic", "ret", "calls:step,backward,zero_grad,append")
    D = "NeuralDualDICE."
    same(D + "_get_convex_f", "convex")
    same(D + "__post_init__", "dice_init", "attrs:f,fconjugate", "calls:reset")
    same(D + "reset", "dice_reset", "attrs:v_net,zeta_net,v,zeta")
    same(D + "_build_function", "dice_function")
    same(D + "_mdps_value", "dice_value")
    same(D + "_compute_estimates", "dice_estimates", "ret", "calls:append")
    same(D + "_compute_average_v", "dice_average")
    same(D + "_compute_loss", "dice_loss")
    same(D + "_collect_data", "dice_data")
    same(D + "_sample_batch", "dice_batch")
    same(D + "evaluate", "dice_train", "ret", "calls:step,backward,zero_grad")
