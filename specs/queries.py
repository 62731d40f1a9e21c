"""Reference semantics of the offline data queries."""
import json
import random

import numpy as np
import pandas as pd
import torch
from pyspark.sql import SparkSession
from pyspark.sql.functions import col, collect_list, crc32, explode, map_keys, udf
from pyspark.sql.types import ArrayType, BooleanType, FloatType, LongType, MapType, StructField, StructType
from reagent.gym.agents.agent import Agent
from reagent.gym.envs import Gym
from reagent.gym.policies.predictor_policies import create_predictor_policy_from_model
from reagent.gym.runners.gymrunner import evaluate_for_n_episodes
from reagent.gym.utils import fill_replay_buffer
from reagent.preprocessing.normalization import get_feature_norm_metadata
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.utils import _dense_to_sparse, replay_buffer_to_pre_timeline_df
from reagent.workflow.data_fetcher import (
    calc_custom_reward,
    calc_reward_multi_steps,
    discrete_action_preprocessing,
    get_distinct_keys,
    hash_mdp_id_and_subsample,
    infer_action_names,
    infer_metrics_names,
    infer_states_names,
    make_existence_bitvector_udf,
    make_get_step_udf,
    make_next_udf,
    make_sparse2dense,
    make_where_udf,
    misc_column_preprocessing,
    parametric_action_preprocessing,
    rand_string,
    select_relevant_columns,
    set_reward_col_as_reward,
    state_and_metrics_sparse2dense,
    upload_as_parquet,
)
from reagent.workflow.gym_batch_rl import initialize_seed
from reagent.workflow.identify_types_flow import create_normalization_spec_spark, normalization_helper
from reagent.workflow.spark_utils import call_spark_class, get_spark_session, get_table_url
from reagent.workflow.types import Dataset


# ---- rewards


def custom_reward(df, custom_reward_expression):
    session = get_spark_session()
    df.createOrReplaceTempView("_tmp_calc_reward_df")
    table = session.sql(f"SELECT *, CAST(COALESCE({custom_reward_expression}, 0) AS FLOAT) as _tmp_reward_col FROM _tmp_calc_reward_df")
    return table.drop("reward").withColumnRenamed("_tmp_reward_col", "reward")


def discounted_reward(df, multi_steps, gamma):
    return calc_custom_reward(df, f"AGGREGATE(REVERSE(reward), FLOAT(0), (s, x) -> FLOAT({gamma}) * s + x)")


def reward_column(df, custom_reward_expression, multi_steps, gamma):
    if custom_reward_expression is not None:
        return calc_custom_reward(df, custom_reward_expression)
    if multi_steps is None:
        return df
    return calc_reward_multi_steps(df, multi_steps, gamma)


# ---- subsampling


def subsample(df, sample_range):
    if sample_range:
        assert 0.0 <= sample_range[0] and sample_range[0] <= sample_range[1] and sample_range[1] <= 100.0
    hashed = df.withColumn("mdp_id", crc32(col("mdp_id")))
    if sample_range:
        low, high = sample_range[0] / 100.0 * 4294967295, sample_range[1] / 100.0 * 4294967295
        return hashed.filter((low <= col("mdp_id")) & (col("mdp_id") <= high))
    return hashed


# ---- columns


def dense_columns(df, col_name, possible_keys):
    kind = StructType([StructField("presence", ArrayType(BooleanType()), False), StructField("dense", ArrayType(FloatType()), False)])

    def split(row):
        present, values = [], []
        for k in possible_keys:
            v = row.get(k, None)
            present.append(v is not None)
            values.append(0.0 if v is None else float(v))
        return present, values

    both = df.withColumn(col_name, udf(split, kind)(col_name))
    both = both.withColumn(f"{col_name}_presence", col(f"{col_name}.presence"))
    return both.withColumn(col_name, col(f"{col_name}.dense"))


def step_udf(multi_steps):
    def count(column):
        return 1 if multi_steps is None else min(len(column), multi_steps)

    return udf(count, LongType())


def next_udf(multi_steps, return_type):
    def pick(column):
        if multi_steps is None:
            return column
        return column[min(len(column), multi_steps) - 1]

    return udf(pick, return_type)


def where_udf(arr):
    def locate(name):
        for i, candidate in enumerate(arr):
            if candidate == name:
                return i
        return len(arr)

    return udf(locate, LongType())


def existence_udf(arr):
    start = [0] * len(arr)

    def mark(wanted):
        bits = start.copy()
        for i, candidate in enumerate(arr):
            if candidate in wanted:
                bits[i] = 1
        return bits

    return udf(mark, ArrayType(LongType()))


def misc_columns(df, multi_steps):
    out = df.withColumn("step", make_get_step_udf(multi_steps)("next_state_features"))
    out = out.withColumn("time_diff", make_next_udf(multi_steps, LongType())("time_diff"))
    return out.withColumn("sequence_number", col("sequence_number_ordinal"))


def state_columns(df, states, metrics, multi_steps):
    pick = make_next_udf(multi_steps, MapType(LongType(), FloatType()))
    out = df.withColumn("next_state_features", pick("next_state_features"))
    out = out.withColumn("metrics", pick("metrics"))
    out = make_sparse2dense(out, "state_features", states)
    out = make_sparse2dense(out, "next_state_features", states)
    return make_sparse2dense(out, "metrics", metrics)


def discrete_columns(df, actions, multi_steps):
    index = make_where_udf(actions)
    out = df.withColumn("action", index("action"))
    out = out.withColumn("next_action", index(make_next_udf(multi_steps, LongType())("next_action")))

    def continues(following):
        return following < len(actions)

    out = out.withColumn("not_terminal", udf(continues, BooleanType())("next_action"))
    mask = make_existence_bitvector_udf(actions)
    out = out.withColumn("possible_actions_mask", mask("possible_actions"))
    return out.withColumn("possible_next_actions_mask", mask(make_next_udf(multi_steps, ArrayType(LongType()))("possible_next_actions")))


def parametric_columns(df, actions, multi_steps, include_possible_actions):
    assert not include_possible_actions
    out = df.withColumn("next_action", make_next_udf(multi_steps, MapType(LongType(), FloatType()))("next_action"))

    def continues(following):
        return len(following) > 0

    out = out.withColumn("not_terminal", udf(continues, BooleanType())("next_action"))
    out = make_sparse2dense(out, "action", actions)
    return make_sparse2dense(out, "next_action", actions)


def select_columns(df, discrete_action, include_possible_actions):
    if not discrete_action and include_possible_actions:
        raise NotImplementedError()

    def number(name):
        return col(name).cast(FloatType())

    def numbers(name):
        return col(name).cast(ArrayType(FloatType()))

    def flags(name):
        return col(name).cast(ArrayType(BooleanType()))

    def whole(name):
        return col(name).cast(LongType())

    chosen = [number("reward"), numbers("state_features"), flags("state_features_presence"), numbers("next_state_features"),
              flags("next_state_features_presence"), col("not_terminal").cast(BooleanType()), number("action_probability"), whole("mdp_id"),
              whole("sequence_number"), whole("step"), whole("time_diff"), numbers("metrics"), flags("metrics_presence")]
    if discrete_action:
        chosen = chosen + [whole("action"), whole("next_action")]
    else:
        chosen = chosen + [numbers("action"), numbers("next_action"), flags("action_presence"), flags("next_action_presence")]
    if include_possible_actions:
        chosen = chosen + [col("possible_actions_mask").cast(ArrayType(LongType())), col("possible_next_actions_mask").cast(ArrayType(LongType()))]
    return df.select(*chosen)


# ---- names


def distinct_keys(df, col_name, is_col_arr_map):
    table = df.select(explode(col_name).alias(col_name)) if is_col_arr_map else df
    return table.select(explode(map_keys(col_name))).distinct().rdd.flatMap(lambda x: x).collect()


def state_names(df, multi_steps):
    return sorted(set(get_distinct_keys(df, "state_features")) | set(get_distinct_keys(df, "next_state_features", is_col_arr_map=multi_steps is not None)))


def action_names(df, multi_steps):
    return sorted(set(get_distinct_keys(df, "action")) | set(get_distinct_keys(df, "next_action", is_col_arr_map=multi_steps is not None)))


def metric_names(df, multi_steps):
    return sorted(get_distinct_keys(df, "metrics", is_col_arr_map=multi_steps is not None))


# ---- the query


def upload(df):
    session = get_spark_session()
    found = False
    for _ in range(10):
        ending = rand_string(length=10)
        name = f"tmp_parquet_{ending}"
        if not session.catalog._jcatalog.tableExists(name):
            found = True
            break
    if not found:
        raise Exception()
    df.write.mode("errorifexists").format("parquet").saveAsTable(name)
    return Dataset(parquet_url=get_table_url(name))


def query(input_table_spec, discrete_action, actions, include_possible_actions, custom_reward_expression, sample_range, multi_steps, gamma):
    table = get_spark_session().sql(f"SELECT * FROM {input_table_spec.table_name}")
    table = set_reward_col_as_reward(table, custom_reward_expression=custom_reward_expression, multi_steps=multi_steps, gamma=gamma)
    table = hash_mdp_id_and_subsample(table, sample_range=sample_range)
    table = misc_column_preprocessing(table, multi_steps=multi_steps)
    table = state_and_metrics_sparse2dense(table, states=infer_states_names(table, multi_steps), metrics=infer_metrics_names(table, multi_steps),
                                           multi_steps=multi_steps)
    if discrete_action:
        assert include_possible_actions and actions is not None
        table = discrete_action_preprocessing(table, actions=actions, multi_steps=multi_steps)
    else:
        table = parametric_action_preprocessing(table, actions=infer_action_names(table, multi_steps), multi_steps=multi_steps,
                                                include_possible_actions=include_possible_actions)
    return upload_as_parquet(select_relevant_columns(table, discrete_action=discrete_action, include_possible_actions=include_possible_actions))


def table_url(table_name):
    rows = get_spark_session().sql(f"DESCRIBE FORMATTED {table_name}").filter(col("col_name") == "Location").select("data_type")
    url = rows.toPandas().astype(str)["data_type"].values[0]
    assert url.count(":") == 1
    scheme, path = url.split(":")
    return f"{scheme}://{path}"


def spark_class(spark, class_name, args):
    found = getattr(spark._jvm.com.facebook.spark.rl, class_name, None)
    assert found is not None
    found.main(args)


def row_count(parquet_url):
    return get_spark_session().read.parquet(parquet_url).count()


# ---- normalisation from a table


def identify_helper(max_unique_enum_values, quantile_size, quantile_k2_threshold, skip_box_cox, skip_quantiles, feature_overrides, whitelist_features,
                    assert_whitelist_feature_coverage):
    options = {"max_unique_enum_values": max_unique_enum_values, "quantile_size": quantile_size, "quantile_k2_threshold": quantile_k2_threshold,
               "skip_box_cox": skip_box_cox, "skip_quantiles": skip_quantiles, "feature_overrides": feature_overrides}
    allowed = set(whitelist_features or [])

    def process(rows):
        found = {}
        for row in rows:
            assert "feature_name" in row and "feature_values" in row
            described = get_feature_norm_metadata(row["feature_name"], row["feature_values"], options)
            if described is not None and (not allowed or row["feature_name"] in allowed):
                found[row["feature_name"]] = described
        if assert_whitelist_feature_coverage and allowed:
            assert {int(f) for f in allowed} == set(found.keys())
        return found

    return process


def identify(table_spec, column_name, preprocessing_options, seed):
    rows = create_normalization_spec_spark(get_spark_session().sql(f"SELECT * FROM {table_spec.table_name}"), column_name, preprocessing_options.num_samples, seed)
    p = preprocessing_options
    describe = normalization_helper(
        max_unique_enum_values=p.max_unique_enum_values, quantile_size=p.quantile_size, quantile_k2_threshold=p.quantile_k2_threshold,
        skip_box_cox=p.skip_box_cox, skip_quantiles=p.skip_quantiles, feature_overrides=p.feature_overrides, whitelist_features=p.whitelist_features,
        assert_whitelist_feature_coverage=p.assert_whitelist_feature_coverage)
    return describe(rows.collect())


def sampled_features(df, column, num_samples, seed):
    table = df.select(explode(col(column).alias("features")).alias("feature_name", "feature_value"))
    share = {}
    for row in table.groupBy("feature_name").count().collect():
        assert num_samples <= row["count"]
        share[row["feature_name"]] = num_samples / row["count"]
    drawn = table.sampleBy("feature_name", fractions=share, seed=seed)
    return drawn.groupBy("feature_name").agg(collect_list("feature_value").alias("feature_values"))


# ---- gym data sets


def seeded(seed):
    if seed is not None:
        random.seed(seed)
        np.random.seed(seed)
        torch.manual_seed(seed)


def offline(env_name, pkl_path, num_train_transitions, max_steps, seed):
    import gym
    initialize_seed(seed)
    env = Gym(env_name=env_name)
    memory = ReplayBuffer(replay_capacity=num_train_transitions, batch_size=1)
    fill_replay_buffer(env, memory, num_train_transitions)
    discrete = True
    if not isinstance(env.action_space, gym.spaces.Discrete):
        assert isinstance(env.action_space, gym.spaces.Box)
        discrete = False
    replay_buffer_to_pre_timeline_df(discrete, memory).to_pickle(pkl_path)


def timeline(pkl_path, input_table_spec):
    rows = pd.read_pickle(pkl_path)
    spark = get_spark_session()
    source = f"{input_table_spec.table_name}_pre_timeline_operator"
    spark.createDataFrame(rows).createTempView(source)
    call_spark_class(spark, class_name="Timeline", args=json.dumps({
        "startDs": "2019-01-01", "endDs": "2019-01-01", "addTerminalStateRow": True, "inputTableName": source,
        "outputTableName": input_table_spec.table_name, "includePossibleActions": "possible_actions" in rows,
        "percentileFunction": "percentile_approx", "rewardColumns": ["reward", "metrics"], "extraFeatureColumns": []}))


def evaluate(env_name, model, publisher, num_eval_episodes, passing_score_bar, module_name, max_steps):
    store = publisher.value
    env = Gym(env_name=env_name)
    assert module_name in model.value.serving_module_names()
    served = torch.jit.load(store.get_latest_published_model(model.value, module_name))
    agent = Agent.create_for_env_with_serving_policy(env, create_predictor_policy_from_model(served))
    rewards = evaluate_for_n_episodes(n=num_eval_episodes, env=env, agent=agent, max_steps=max_steps)
    assert np.mean(rewards) >= passing_score_bar


# ---- data collected in a gym, exported once per transition
def as_maps(dense):
    return [{i: v.item() for i, v in enumerate(row)} for row in dense]


def exported(is_discrete_action, replay_buffer):
    batch = replay_buffer.sample_all_valid_transitions()
    mask = getattr(batch, "possible_actions_mask", None)
    possible = getattr(batch, "possible_actions", None)
    over = batch.terminal.squeeze(1).tolist()
    if is_discrete_action:
        action = [str(a.item()) for a in batch.action]
        seen = np.unique(batch.action)
        mask = [[] if end else [1 for _ in range(len(seen))] for end in over]
        possible = [[] if end else [str(a) for a in seen] for end in over]
    else:
        action = _dense_to_sparse(batch.action)
    reward = batch.reward.squeeze(1).tolist()
    rows = {
        "ds": ["2019-01-01" for _ in range(batch.reward.shape[0])],
        "state_features": _dense_to_sparse(batch.state),
        "action": action,
        "mdp_id": batch.mdp_id.tolist(),
        "sequence_number": batch.sequence_number.squeeze(1).tolist(),
        "action_probability": np.exp(batch.log_prob.squeeze(1)).tolist(),
        "reward": reward,
        "metrics": [{"reward": r} for r in reward],
    }
    if mask is not None:
        rows["possible_actions_mask"] = mask
    if possible is not None:
        rows["possible_actions"] = possible
    return pd.DataFrame.from_dict(rows)
