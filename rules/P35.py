"""Samplers, scorers and policies."""
G = "reagent.gym.policies."
S = G + "samplers."
HELP = {"get_parametric_input", "get_possible_actions_for_gym", "get_tiled_batch", "as_feature_data", "repeat_interleave"}


def run(cx):
    def f(target, spec, *obs, **kw):
        k = dict(init=False, opaque=HELP - {target.split(".")[-1]})
        k.update(kw)
        cx.same(target, "samplers." + spec, *(obs or ("ret",)), **k)

    D = S + "discrete_sampler."
    f(D + "SoftmaxActionSampler.__init__", "softmax_built", "attrs:temperature", init=True)
    f(D + "SoftmaxActionSampler.sample_action", "softmax_sample")
    f(D + "SoftmaxActionSampler.log_prob", "softmax_log_prob")
    f(D + "SoftmaxActionSampler.entropy", "softmax_entropy")
    f(D + "GreedyActionSampler.sample_action", "greedy_sample")
    f(D + "GreedyActionSampler.log_prob", "greedy_log_prob")
    f(D + "EpsilonGreedyActionSampler.__init__", "epsilon_built", "attrs:epsilon,epsilon_decay,minimum_epsilon", init=True)
    f(D + "EpsilonGreedyActionSampler.sample_action", "epsilon_sample")
    f(D + "EpsilonGreedyActionSampler.log_prob", "epsilon_log_prob")
    f(D + "EpsilonGreedyActionSampler.update", "epsilon_update", "attrs:epsilon")
    C = S + "continuous_sampler.GaussianSampler."
    f(C + "__init__", "gaussian_built", "attrs:actor_network", init=True)
    f(C + "_sample_action", "gaussian_draw")
    f(C + "sample_action", "gaussian_sample", "ret", "calls:eval,train,_sample_action", opaque={"_sample_action"})
    f(C + "_log_prob", "gaussian_density")
    f(C + "log_prob", "gaussian_log_prob", "ret", "calls:eval,train,_log_prob", opaque={"_log_prob"})
    f(S + "top_k_sampler.TopKSampler.__init__", "top_k_built", "attrs:k", init=True)
    f(S + "top_k_sampler.TopKSampler.sample_action", "top_k")

    D = G + "scorers.discrete_scorer."
    f(D + "apply_possible_actions_mask", "masked")
    f(D + "discrete_dqn_scorer", "dqn_scorer", "ret", "calls:eval,train,q_network")
    f(D + "discrete_dqn_serving_scorer", "dqn_serving_scorer")
    f(D + "get_parametric_input", "parametric_input")
    f(D + "parametric_dqn_scorer", "parametric_scorer", "ret", "calls:eval,train,q_network")
    f(D + "parametric_dqn_serving_scorer", "parametric_serving_scorer")
    f(G + "scorers.slate_q_scorer.slate_q_scorer", "slate_scorer", "ret", "calls:eval,train,q_network")
    f(G + "scorers.slate_q_scorer.slate_q_serving_scorer", "slate_serving_scorer", "ret", "calls:eval,train,q_network")
    f(G + "scorers.continuous_scorer.sac_scorer", "sac_scorer", "ret", "calls:eval,train,_get_loc_and_scale_log")

    f(G + "policy.Policy.__init__", "policy_built", "attrs:scorer,sampler", init=True)
    f(G + "policy.Policy.act", "act")
    P = G + "predictor_policies."
    f(P + "create_predictor_policy_from_model", "predictor_policy", "ret", "raises",
      opaque=HELP | {"slate_q_serving_scorer", "parametric_dqn_serving_scorer", "discrete_dqn_serving_scorer"})
    f(P + "DiscreteDQNPredictorPolicy.__init__", "predictor_dqn_built", "attrs:sampler,scorer", init=True, opaque=HELP | {"discrete_dqn_serving_scorer"})
    f(P + "DiscreteDQNPredictorPolicy.act", "predictor_dqn_act")
    f(P + "ActorPredictorPolicy.act", "predictor_actor_act")

    R = G + "random_policies."
    f(R + "make_random_policy_for_env", "random_policy", "ret", "raises", opaque={"create_for_env"})
    f(R + "DiscreteRandomPolicy.__init__", "random_built", "attrs:num_actions", init=True)
    f(R + "DiscreteRandomPolicy.create_for_env", "random_for_discrete", "ret", "raises")
    f(R + "DiscreteRandomPolicy.act", "random_act")
    f(R + "MultiDiscreteRandomPolicy.__init__", "multi_built", "attrs:num_action_vec,dists", init=True)
    f(R + "MultiDiscreteRandomPolicy.create_for_env", "random_for_multi", "ret", "raises")
    f(R + "MultiDiscreteRandomPolicy.act", "multi_act")
    f(R + "ContinuousRandomPolicy.__init__", "uniform_built", "attrs:low,high,dist", init=True)
    f(R + "ContinuousRandomPolicy.create_for_env", "random_for_box", "ret", "raises")
    f(R + "ContinuousRandomPolicy.act", "uniform_act")
