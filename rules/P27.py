"""Sequential doubly robust, weighted doubly robust and MAGIC."""
E = "reagent.evaluation."


def run(cx):
    S = E + "sequential_doubly_robust_estimator.SequentialDoublyRobustEstimator."
    cx.same(S + "estimate", "estimators.sequential", "ret", opaque={"bootstrapped_std_error_of_mean"})
    W = E + "weighted_sequential_doubly_robust_estimator.WeightedSequentialDoublyRobustEstimator."
    cx.same(W + "normalize_importance_weights", "estimators.normalized", "ret")
    cx.same(W + "calculate_step_return", "estimators.step_return", "ret")
    cx.same(W + "confidence_bounds", "estimators.bounds", "ret")
    cx.same(W + "transform_to_equal_length_trajectories", "estimators.trajectories", "ret")
    cx.same(W + "compute_weighted_doubly_robust_point_estimate", "estimators.point", "ret", opaque={"confidence_bounds"})
    cx.same(W + "estimate", "estimators.weighted", "ret", opaque={
        "confidence_bounds", "transform_to_equal_length_trajectories", "normalize_importance_weights", "calculate_step_return",
        "compute_weighted_doubly_robust_point_estimate"})
