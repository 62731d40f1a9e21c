"""Contextual-bandit off-policy estimators."""
B = "reagent.ope.estimators.contextual_bandits_estimators."
E = "reagent.ope.estimators.estimator."
U = "reagent.ope.utils."
AVG = {"RunningAverage"}
HELP = {"_train_model", "_calc_dm_reward", "_compute_metric_data", "bootstrapped_std_error_of_mean", "_evaluate", "_calc_estimated_values",
        "_calc_weight_reward_tensors", "_estimate_rmax"}


def run(cx):
    cx.same(U + "RunningAverage.__init__", "bandits.average_init", "attrs:_average,_count")
    cx.same(U + "RunningAverage.add", "bandits.add", "attrs:_average,_count", init=False)
    for m in ("average", "count", "total"):
        cx.same(U + "RunningAverage." + m, "bandits." + m, "ret", init=False)
    cx.same(U + "Clamper.__init__", "bandits.clamper", "attrs:_min,_max", "raises")
    cx.same(U + "Clamper.__call__", "bandits.clamp", "ret", init=False)
    cx.same(E + "Estimator._compute_metric_data", "bandits.metric_data", "ret", opaque={"bootstrapped_std_error_of_mean"})
    for m in ("rmse", "bias", "variance"):
        cx.same(E + "ResultDiffs." + m, "bandits." + m, "ret", init=False)
    cx.same(E + "EstimatorResults.append", "bandits.append", "attrs:results", init=False)
    cx.same(E + "EstimatorResults.report", "bandits.report", "ret", init=False)

    def est(name, m, spec, *obs, **kw):
        cx.same(B + name + "." + m, "bandits." + spec, "ret", *obs, opaque=HELP - {m}, inline_new=AVG, **kw)

    est("IPSEstimator", "evaluate", "ips")
    est("DMEstimator", "_evaluate", "dm")
    est("DMEstimator", "evaluate", "folds", "calls:_evaluate")
    est("DMEstimator", "_train_model", "train", "calls:train")
    est("DMEstimator", "_calc_dm_reward", "dm_reward")
    est("DoublyRobustEstimator", "_evaluate", "dr", "calls:_train_model")
    est("SwitchEstimator", "_estimate_rmax", "rmax")
    est("SwitchEstimator", "_calc_weight_reward_tensors", "weights")
    est("SwitchEstimator", "_calc_estimated_values", "switch_values")
    est("SwitchDREstimator", "_calc_estimated_values", "switch_dr_values")
    est("SwitchEstimator", "_evaluate", "switch", "calls:_train_model")
    cx.same(E + "run_evaluation", "bandits.worker", "ret", "calls:evaluate,load,append")
    cx.same(E + "Evaluator.__init__", "bandits.tasks", "attrs:_experiments,_tasks", "calls:append")
    cx.same(E + "Evaluator.evaluate", "bandits.evaluate_all", "ret", "calls:append,evaluate,dump,map,flush,close", init=False,
            opaque={"run_evaluation", "append"})
    for name, at in (("DMEstimator", "_device,_trainer"), ("IPSEstimator", "_device,_weight_clamper,_weighted"),
                     ("DoublyRobustEstimator", "_device,_trainer,_weight_clamper"), ("SwitchEstimator", "_device,_trainer,_weight_clamper,_rmax")):
        cx.same(B + name + ".__init__", "bandits.built", "attrs:" + at)
