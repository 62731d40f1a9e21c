"""Slate off-policy evaluation."""
M = "reagent.ope.estimators.slate_estimators."
AVG = {"RunningAverage"}
HELP = {"make_slate", "make_slot_item_distributions", "_calculate_slot_expectation", "is_to_calculate_expectation", "slot_item_expectations",
        "_calculate_expectations", "_sample_expectations", "values_tensor", "slots", "slot_features", "slot_values", "slot_weights",
        "_get_discount", "replace", "sort", "_normalize", "index_of", "fill", "greedy", "sample", "probability", "slate_probability",
        "slate_space", "one_hots", "distribution", "_train_model", "_evaluate_sample", "validate", "expectations", "_reset", "keys",
        "calculate_reward", "tgt_slate_probability", "log_slate_probability", "log_slot_item_expectations", "tgt_slot_expectations",
        "tgt_slate_space", "items", "features"}


def run(cx):
    def f(target, spec, *obs, **kw):
        last = target.split(".")[-1]
        k = dict(init=False, opaque=HELP - {last, kw.pop("open", "")})
        k.update(kw)
        cx.same(M + target, "slates." + spec, *(obs or ("ret",)), **k)

    f("SlateSlotObjects.fill", "slot_fill")
    f("SlateSlotObjects.slots", "slots_of")
    f("SlateItemValues.items", "items_of")
    f("SlateItemFeatures.items", "items_of")
    f("SlateItemFeatures._init_values", "features_init", "attrs:_key_to_index,_index_to_key,_values", "raises=")
    f("SlateSlotFeatures.features", "stacked")
    f("Slate.one_hots", "one_hots")
    f("Slate.slot_values", "slot_values")
    f("Slate.slot_features", "slot_features")
    f("make_slate", "slate_of")
    f("make_slot_item_distributions", "dists_of")
    f("SlateSlotItemValues.values_tensor", "values_tensor")
    f("SlateSlotItemExpectations.expected_rewards", "expected_rewards")
    f("is_to_calculate_expectation", "small_enough")
    f("_calculate_slot_expectation", "slot_expectation", "ret", lambda p: p.calls(kinds=("setitem",), label="writes"))
    P = "SlateItemProbabilities."
    f(P + "_reset", "reset_items", "attrs:_slot_item_expectations,_unzipped,_keys,_probabilities,_is_normalized,_sorted", opaque=set())
    f(P + "slate_probability", "item_probability")
    f(P + "slot_item_expectations", "item_expectations", "ret", "attrs:_slot_item_expectations",
      "calls:_normalize,_calculate_expectations,_sample_expectations", lambda p: p.calls(kinds=("setitem",), label="writes"))
    f(P + "_sample_expectations", "sampled_expectations", "attrs:_slot_item_expectations")
    f(P + "_calculate_expectations", "exact_expectations", "attrs:_slot_item_expectations")
    f(P + "sample_slate", "item_slate")
    f(P + "slate_space", "item_space")
    P = "SlateSlotItemProbabilities."
    f(P + "slate_probability", "slot_probability")
    f(P + "slot_item_expectations", "slot_expectations", "ret", "attrs:_slot_item_expectations", "calls:_calculate_expectations,_sample_expectations")
    f(P + "_sample_expectations", "sampled_slot_expectations", "attrs:_slot_item_expectations")
    f(P + "_calculate_expectations", "exact_slot_expectations", "attrs:_slot_item_expectations", "calls:_normalize")
    f(P + "sample_slate", "slot_slate")

    f("RewardDistribution.__call__", "as_distribution")
    f("PassThruDistribution.distribution", "pass_through")
    f("RankingDistribution.distribution", "by_rank")
    f("FrechetDistribution.distribution", "frechet")

    f("SlateMetric.calculate_reward", "metric_reward")
    f("SlateMetric.__call__", "metric_call")
    f("SlateMetric.slot_weights", "unit_weights")
    f("SlateMetric.slot_values", "unit_values")
    f("DCGSlateMetric.slot_weights", "dcg_weights")
    f("DCGSlateMetric.slot_values", "dcg_values")
    f("NDCGSlateMetric.slot_weights", "ndcg_weights", "ret", "attrs:_idcg")
    f("NDCGSlateMetric.__init__", "ndcg_built", "attrs:_sorted_items,_item_rewards,_idcg,_device", init=True)
    f("ERRSlateMetric.__init__", "err_built", "attrs:_max_reward,_device", init=True)
    f("ERRSlateMetric.slot_weights", "err_weights")
    f("ERRSlateMetric.slot_values", "err_values")
    f("SlateModel.slot_probabilities", "examined")

    for m, s in (("log_slot_item_expectations", "log_expectations"), ("log_slate_probability", "log_probability"),
                 ("tgt_slot_expectations", "tgt_expectations"), ("tgt_slate_probability", "tgt_probability"),
                 ("tgt_slate_space", "tgt_space"), ("items", "sample_items")):
        f("LogSample." + m, s)

    f("IPSEstimator._evaluate_sample", "ips_sample")
    f("DMEstimator._evaluate_sample", "dm_sample")
    f("DoublyRobustEstimator._evaluate_sample", "dr_sample")
    f("PseudoInverseEstimator._evaluate_sample", "pseudo_inverse_sample")
    f("PBMEstimator._evaluate_sample", "pbm_sample")
    for c in ("IPSEstimator", "PseudoInverseEstimator", "PBMEstimator"):
        f(c + ".evaluate", "weighted_average", "ret", "calls:validate", inline_new=AVG)
        f(c + ".__init__", "weighted_built", "attrs:_device,_weight_clamper,_weighted", init=True)
    f("DMEstimator.evaluate", "dm_average", "ret", "calls:validate", inline_new=AVG)
    f("DMEstimator.__init__", "trained_built", "attrs:_device,_trainer,_training_sample_ratio", init=True)
    f("DMEstimator._train_model", "train", "ret", "calls:train,reset")
    f("DoublyRobustEstimator.evaluate", "dr_average", "ret", "calls:validate", inline_new=AVG)
    f("DoublyRobustEstimator.__init__", "dr_built", "attrs:_device,_trainer,_training_sample_ratio,_weight_clamper,_weighted", init=True)

    for c in ("SlateSlotValues", "SlateSlotObjects"):
        f(c + "._to_key", "slot_key", opaque=set())
    for c in ("SlateItemValues", "SlateItemFeatures", "SlateItemProbabilities"):
        f(c + "._to_key", "item_key", opaque=set())
    f("SlateSlots._new_item", "slot_key", opaque=set())
    f("SlateItems._new_item", "item_key", opaque=set())
    f("SlateSlots.fill", "slot_values_of", opaque=set())
    f("SlateSlotObjects.objects", "all_values", opaque=set())
    f("SlateSlotItemExpectations.expectations", "all_values", opaque=set())
    K = {"_init_values", "_reset"}
    f("SlateSlotItemValues.__init__", "matrix_built", "attrs:_item_size", "calls:_init_values,_reset", init=True, opaque=K)
    f("SlateItemProbabilities.__init__", "item_probs_built", "attrs:_greedy,_slot_item_expectations", "calls:_init_values,_reset", init=True, opaque=K)
    f("SlateSlotItemProbabilities.__init__", "slot_probs_built", "attrs:_greedy,_slot_item_expectations,_item_size", "calls:_init_values,_reset", init=True, opaque=K)
    f("SlateItemProbabilities.is_deterministic", "greedy_flag")
    f("RewardDistribution.__init__", "distribution_built", "attrs:_deterministic", init=True)
    f("RankingDistribution.__init__", "ranking_built", "attrs:_deterministic,_alpha", init=True)
    f("FrechetDistribution.__init__", "frechet_built", "attrs:_deterministic,_shape", init=True)
    f("SlatePolicy.__init__", "policy_built", "attrs:device", init=True)
    f("SlatePolicy.__call__", "queried", opaque={"_query"})
    f("SlateMetric.__init__", "on_device", "attrs:_device", init=True)
    f("DCGSlateMetric._get_discount", "discount", "ret", lambda p: p.calls(kinds=("store",), label="kept weights"), opaque=set())
