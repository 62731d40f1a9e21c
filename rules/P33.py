"""Evaluation pages as inputs of the off-policy estimators."""
M = "reagent.evaluation.ope_adapter."
HELP = {"transform_to_equal_length_trajectories", "bootstrapped_std_error_of_mean", "edp_to_contextual_bandit_log",
        "estimator_result_to_cpe_estimate", "edp_to_rl_input", "estimator_results_to_cpe_estimate", "evaluate", "estimate"}


def run(cx):
    def same(name, spec, *obs, **kw):
        kw.setdefault("opaque", HELP - {name.split(".")[-1]})
        cx.same(M + name, "adapter." + spec, *(obs or ("ret",)), **kw)

    O, S = "OPEstimatorAdapter.", "SequentialOPEstimatorAdapter."
    same(O + "edp_to_contextual_bandit_log", "bandit_log")
    same(O + "estimator_result_to_cpe_estimate", "bandit_result")
    same(O + "estimate", "bandit_estimate", init=False)
    same(S + "EDPSeqPolicy.action_dist", "page_policy", init=False)
    same(S + "EDPValueFunc.state_action_value", "page_action_value", init=False)
    same(S + "EDPValueFunc.state_value", "page_value", init=False)
    same(S + "edp_to_rl_input", "episodes")
    same(S + "estimator_results_to_cpe_estimate", "sequential_result")
    same(S + "estimate", "sequential_estimate", init=False)
    same("OPEvaluator.__init__", "evaluator_init",
         "attrs:ope_dm_estimator,ope_ips_estimator,ope_dr_estimator,ope_seq_dr_estimator,ope_seq_weighted_dr_estimator,ope_seq_magic_estimator")
    same("OPEvaluator.score_cpe", "evaluator_score", init=False)
    same(O + "__init__", "bandit_init", "attrs:_ope_estimator")
    same(S + "__init__", "sequential_init", "attrs:seq_ope_estimator,gamma,_device")
    same(S + "EDPSeqPolicy.__init__", "page_policy_init", "attrs:model_propensities,_action_space")
    same(S + "EDPValueFunc.__init__", "page_values_init", "attrs:model_values,target_propensities")
