"""Direct method, inverse propensity and doubly robust estimates, and the evaluator around them."""
E = "reagent.evaluation."


def run(cx):
    D = E + "doubly_robust_estimator.DoublyRobustEstimator."
    std = {"bootstrapped_std_error_of_mean"}
    cx.same(D + "estimate", "estimators.single_step", "ret", opaque=std)
    cx.same(D + "_split_data", "estimators.split", "ret")
    cx.same(E + "cpe.bootstrapped_std_error_of_mean", "estimators.bootstrap", "ret")
    cx.same(E + "cpe.CpeEstimateSet.fill_empty_with_zero", "estimators.filled", "ret")
    V = E + "evaluator.Evaluator."
    cx.same(V + "score_cpe", "estimators.score", "ret", opaque={"estimate"})
    cx.same(V + "evaluate_post_training", "estimators.post_training", "ret", "written", "calls:notify_observers",
            opaque={"score_cpe", "set_metric_as_reward"})
    cx.same(E + "evaluator.get_metrics_to_score", "estimators.metric_names", "ret")
    cx.same(V + "huberLoss", "estimators.huber", "ret")
    cx.same(V + "get_target_distribution_error", "estimators.distribution_error", "ret")
    cx.same(V + "_get_batch_logged_actions", "estimators.logged_actions", "ret")
    cx.same(E + "evaluator.get_tensor", "estimators.as_tensor", "ret")
