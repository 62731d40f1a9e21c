"""Offline data queries: rewards, subsampling, columns, names, tables, normalisation rows and gym data sets."""
F = "reagent.workflow.data_fetcher."


def run(cx):
    parts = {"calc_custom_reward", "calc_reward_multi_steps", "set_reward_col_as_reward", "hash_mdp_id_and_subsample", "make_sparse2dense", "make_get_step_udf",
             "make_next_udf", "make_where_udf", "make_existence_bitvector_udf", "misc_column_preprocessing", "state_and_metrics_sparse2dense",
             "discrete_action_preprocessing", "parametric_action_preprocessing", "select_relevant_columns", "get_distinct_keys", "infer_states_names",
             "infer_action_names", "infer_metrics_names", "rand_string", "upload_as_parquet", "get_spark_session", "get_table_url",
             "create_normalization_spec_spark", "normalization_helper", "get_feature_norm_metadata", "call_spark_class", "initialize_seed", "fill_replay_buffer",
             "replay_buffer_to_pre_timeline_df", "create_predictor_policy_from_model", "evaluate_for_n_episodes", "create_for_env_with_serving_policy",
             "sample_all_valid_transitions", "sample_transition_batch", "_dense_to_sparse", "reagent.core.tagged_union.TaggedUnion.value", "serving_module_names", "get_latest_published_model"}

    def same(target, spec, *obs, **kw):
        cx.same(target, "queries." + spec, *(obs or ("ret",)), init=False, opaque=parts - {target.split(".")[-1]}, **kw)

    same(F + "calc_custom_reward", "custom_reward", "ret", lambda p: p.calls("createOrReplaceTempView", "sql", label="the view the reward is computed from"))
    same(F + "calc_reward_multi_steps", "discounted_reward")
    same(F + "set_reward_col_as_reward", "reward_column")
    same(F + "hash_mdp_id_and_subsample", "subsample", "ret", "raises=")
    same(F + "make_sparse2dense", "dense_columns")
    same(F + "make_get_step_udf", "step_udf")
    same(F + "make_next_udf", "next_udf")
    same(F + "make_where_udf", "where_udf")
    same(F + "make_existence_bitvector_udf", "existence_udf")
    same(F + "misc_column_preprocessing", "misc_columns")
    same(F + "state_and_metrics_sparse2dense", "state_columns")
    same(F + "discrete_action_preprocessing", "discrete_columns")
    same(F + "parametric_action_preprocessing", "parametric_columns", "ret", "raises=")
    same(F + "select_relevant_columns", "select_columns", "ret", "raises=")
    same(F + "get_distinct_keys", "distinct_keys")
    same(F + "infer_states_names", "state_names")
    same(F + "infer_action_names", "action_names")
    same(F + "infer_metrics_names", "metric_names")
    same(F + "upload_as_parquet", "upload", "ret", "raises=", lambda p: p.calls("saveAsTable", label="the table is written once"))
    same(F + "query_data", "query")
    w = "reagent.workflow."
    same(w + "spark_utils.get_table_url", "table_url", "ret", "raises=")
    same(w + "spark_utils.call_spark_class", "spark_class", lambda p: p.calls("main", label="operator run"))
    same(w + "utils.get_table_row_count", "row_count")
    same(w + "identify_types_flow.normalization_helper", "identify_helper")
    same(w + "identify_types_flow.identify_normalization_parameters", "identify")
    same(w + "identify_types_flow.create_normalization_spec_spark", "sampled_features")
    g = w + "gym_batch_rl."
    same(g + "initialize_seed", "seeded", lambda p: p.calls("seed", "manual_seed", label="generators seeded"))
    same(g + "offline_gym", "offline", lambda p: p.calls("initialize_seed", "fill_replay_buffer", "to_pickle", label="collection and storage"))
    same(g + "timeline_operator", "timeline", lambda p: p.calls("createTempView", "call_spark_class", label="operator input and run"))
    same(g + "evaluate_gym", "evaluate", lambda p: p.calls("load", "evaluate_for_n_episodes", label="the published module is evaluated"), "raises=")
    r = "reagent.replay_memory.utils."
    same(r + "_dense_to_sparse", "as_maps")
    same(r + "replay_buffer_to_pre_timeline_df", "exported")
