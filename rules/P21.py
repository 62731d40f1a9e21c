"""Served predictors."""
M = "reagent.prediction.predictor_wrapper."
D = "reagent.prediction.ranking.predictor_wrapper.DeterminantalPointProcessPredictorWrapper."


def run(cx):
    n = dict(init=False)
    cx.same(M + "serving_to_feature_data", "served.feature_data", "ret")
    cx.same(M + "sparse_input_prototype", "served.sparse_prototype", "ret")
    h = {"serving_to_feature_data", "sparse_input_prototype", "make_sparse_preprocessor", "gen_permutations", "get_Q",
         "_embed_states"}

    def cls(name, spec, attrs, *methods):
        q = M + name + "."
        cx.same(q + "__init__", f"served.{spec}_init", "attrs:" + attrs, opaque=h)
        for m, s in methods:
            cx.same(q + m, "served." + s, "ret", opaque=h, **n)

    f = "forward"
    cls("DiscreteDqnWithPreprocessor", "discrete", "model,state_preprocessor,state_feature_config,sparse_preprocessor",
        (f, "discrete"), ("input_prototype", "discrete_prototype"))
    cls("DiscreteDqnPredictorWrapper", "discrete_wrapper", "dqn_with_preprocessor,action_names", (f, "discrete_wrapper"))
    cls("OSSSparsePredictorUnwrapper", "unwrapper", "model", (f, "sparse_unwrapper"))
    cx.same(M + "CompressModelWithPreprocessor.forward", "served.compressed", "ret", opaque=h, **n)
    cls("ParametricDqnWithPreprocessor", "parametric", "model,state_preprocessor,action_preprocessor",
        (f, "parametric"), ("input_prototype", "parametric_prototype"))
    cls("ParametricDqnPredictorWrapper", "parametric_wrapper", "dqn_with_preprocessor", (f, "parametric_wrapper"))
    cls("ActorWithPreprocessor", "actor", "model,state_preprocessor,action_postprocessor,serve_mean_policy",
        (f, "actor"), ("input_prototype", "actor_prototype"))
    cls("ActorPredictorWrapper", "actor_wrapper", "actor_with_preprocessor", (f, "actor_wrapper"))
    cls("RankingActorWithPreprocessor", "ranking_actor",
        "model,state_preprocessor,candidate_preprocessor,num_candidates,action_postprocessor",
        (f, "ranking_actor"), ("input_prototype", "ranking_actor_prototype"))
    cls("RankingActorPredictorWrapper", "ranking_wrapper", "actor_with_preprocessor", (f, "ranking_wrapper"))
    cls("LearnVMSlateWithPreprocessor", "slate_scorer", "mlp,state_preprocessor,candidate_preprocessor",
        (f, "slate_scores"), ("input_prototype", "slate_scorer_prototype"))
    cls("SlateRankingPreprocessor", "slate_inputs", "state_preprocessor,candidate_preprocessor",
        (f, "slate_inputs"), ("input_prototype", "slate_inputs_prototype"))
    cls("Seq2SlateWithPreprocessor", "seq2slate",
        "input_prototype_data,preprocessor,model,greedy,state_sorted_features,candidate_sorted_features,"
        "state_feature_id_to_index,candidate_feature_id_to_index", (f, "seq2slate"), ("input_prototype", "seq2slate_prototype"))
    cls("Seq2SlatePredictorWrapper", "seq2slate_wrapper", "seq2slate_with_preprocessor", (f, "seq2slate_wrapper"))
    cls("Seq2SlateRewardWithPreprocessor", "slate_reward", "model,state_preprocessor,candidate_preprocessor",
        (f, "slate_reward"), ("input_prototype", "slate_reward_prototype"),
        ("state_sorted_features", "state_features"), ("candidate_sorted_features", "candidate_features"))
    cls("Seq2RewardWithPreprocessor", "seq2reward", "model,state_preprocessor,sparse_preprocessor,seq_len,num_action,all_permut",
        (f, "seq2reward"))
    cls("Seq2RewardPlanShortSeqWithPreprocessor", "short_seq", "model,step_model,state_preprocessor,seq_len,num_action,all_permut",
        (f, "short_seq"))
    cls("MDNRNNWithPreprocessor", "mdnrnn", "model,state_preprocessor,state_feature_config,sparse_preprocessor,seq_len,num_action",
        (f, "mdnrnn"), ("input_prototype", "mdnrnn_prototype"))

    cx.same(D + "__init__", "served.dpp_init", "attrs:alpha,MIN_VALUE")
    cx.same(D + "unchosen_dets", "served.dpp_gains", "ret", **n)
    cx.same(D + "greedy_select", "served.dpp_greedy", "ret", opaque={"unchosen_dets"}, **n)
    cx.same(D + "forward", "served.dpp", "ret", opaque={"greedy_select"}, **n)
