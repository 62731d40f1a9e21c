"""Network builders."""
N = "reagent.net_builder."


def run(cx):
    n = dict(init=False, opaque={"get_num_output_features"})

    def both(path, method, spec):
        cx.same(N + path + "." + method, "builders." + spec, "ret", **n)

    q = "build_q_network"
    both("discrete_dqn.fully_connected.FullyConnected", q, "q_fc")
    both("discrete_dqn.dueling.Dueling", q, "q_dueling")
    both("discrete_dqn.fully_connected_with_embedding.FullyConnectedWithEmbedding", q, "q_embedding")
    both("quantile_dqn.quantile.Quantile", q, "q_quantile")
    both("quantile_dqn.dueling_quantile.DuelingQuantile", q, "q_dueling_quantile")
    both("categorical_dqn.categorical.Categorical", q, "q_categorical")
    both("parametric_dqn.fully_connected.FullyConnected", q, "critic")
    both("quantile_dqn_net_builder._Mean", "forward", "mean")
    both("value.fully_connected.FullyConnected", "build_value_network", "value")
    both("value.seq2reward_rnn.Seq2RewardNetBuilder", "build_value_network", "seq2reward")
    a = "build_actor"
    both("continuous_actor.fully_connected.FullyConnected", a, "actor_fc")
    both("continuous_actor.gaussian_fully_connected.GaussianFullyConnected", a, "actor_gaussian")
    both("continuous_actor.dirichlet_fully_connected.DirichletFullyConnected", a, "actor_dirichlet")
    both("discrete_actor.fully_connected.FullyConnected", a, "actor_discrete")
    s = "build_serving_module"
    both("discrete_dqn_net_builder.DiscreteDQNNetBuilder", s, "q_serving")
    both("categorical_dqn_net_builder.CategoricalDQNNetBuilder", s, "q_serving")
    both("quantile_dqn_net_builder.QRDQNNetBuilder", s, "quantile_serving")
    both("parametric_dqn_net_builder.ParametricDQNNetBuilder", s, "critic_serving")
    both("continuous_actor_net_builder.ContinuousActorNetBuilder", s, "actor_serving")
    both("continuous_actor_net_builder.ContinuousActorNetBuilder", "build_ranking_serving_module", "ranking_actor_serving")
    both("discrete_actor_net_builder.DiscreteActorNetBuilder", s, "discrete_actor_serving")
    both("slate_ranking.slate_ranking_transformer.SlateRankingTransformer", "build_slate_ranking_network", "slate_ranking")
    both("slate_reward.slate_reward_gru.SlateRewardGRU", "build_slate_reward_network", "slate_reward_gru")
    both("slate_reward.slate_reward_transformer.SlateRewardTransformer", "build_slate_reward_network", "slate_reward_transformer")
    for c in ("gru.SlateRewardGRU", "transformer.SlateRewardTransformer"):
        both("slate_reward.slate_reward_" + c, "expect_slate_wise_reward", "slate_wise")
    for c, spec in (("fully_connected.FullyConnected", "scaled"), ("gaussian_fully_connected.GaussianFullyConnected", "scaled"),
                    ("dirichlet_fully_connected.DirichletFullyConnected", "unscaled")):
        cx.same(N + "continuous_actor." + c + ".default_action_preprocessing", "builders." + spec, "ret", init=False)
