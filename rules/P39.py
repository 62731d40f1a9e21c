"""World models, the cross-entropy planner and sequence-reward models."""
M = "reagent.models.mdn_rnn."
W = "reagent.models.world_model.MemoryNetwork."
C = "reagent.models.cem_planner.CEMPlannerNetwork."
S = "reagent.models.seq2reward_model.Seq2RewardNetwork."
T = "reagent.training.world_model."
steps = lambda p: p.calls("backward", "step", "zero_grad", "train", label="optimisation steps", grad=True)


def run(cx):
    n = dict(init=False)
    cx.same(M + "MDNRNN.__init__", "worlds.mdnrnn_init", "attrs:state_dim,action_dim,num_hiddens,num_hidden_layers,num_gaussians,rnn,gmm_linear")
    cx.same(M + "MDNRNN.forward", "worlds.mdnrnn", "ret", **n)
    cx.same(M + "MDNRNN.get_initial_hidden_state", "worlds.mdnrnn_hidden", "ret", **n)
    cx.same(M + "gmm_loss", "worlds.mixture_nll", "ret")
    cx.same(M + "MDNRNNMemoryPool.deque_sample", "worlds.pool_rows", "yields", **n)
    cx.same(M + "MDNRNNMemoryPool.sample_memories", "worlds.pool_sample", "ret", opaque={"deque_sample", "stack"}, **n)
    cx.same(M + "MDNRNNMemoryPool.insert_into_memory", "worlds.pool_insert", "attrs:replay_memory,accu_memory_num", **n)
    cx.same(M + "MDNRNNMemoryPool.memory_size", "worlds.pool_size", "ret", **n)
    cx.same(M + "transpose", "worlds.flipped", "ret")
    cx.same(W + "__init__", "worlds.memory_init", "attrs:mdnrnn,state_dim,action_dim,num_hiddens,num_hidden_layers,num_gaussians")
    cx.same(W + "forward", "worlds.memory", "ret", **n)

    t = T + "mdnrnn_trainer.MDNRNNTrainer."
    cx.same(t + "get_loss", "worlds.world_losses", "ret", opaque={"gmm_loss"}, **n)
    cx.same(t + "train", "worlds.world_train", "retv", steps, "attrs:minibatch,cum_loss,cum_gmm,cum_bce,cum_mse", opaque={"get_loss"}, **n)
    cx.same("reagent.training.cem_trainer.CEMTrainer.train", "worlds.cem_train", "calls:train", "attrs:minibatch", opaque={"train"}, **n)

    cx.same(C + "__init__", "worlds.planner_init",
            "attrs:mem_net_list,cem_num_iterations,cem_pop_size,ensemble_pop_size,num_elites,plan_horizon_length,state_dim,action_dim,"
            "terminal_effective,gamma,alpha,epsilon,discrete_action", "attrsg:action_upper_bounds,action_lower_bounds,orig_action_upper,orig_action_lower")
    plan = {"discrete_planning", "continuous_planning", "acc_rewards_of_all_solutions", "acc_rewards_of_one_solution",
            "sample_reward_next_state_terminal", "constrained_variance", "rescale_actions"}
    for m, s in (("forward", "plan"), ("acc_rewards_of_one_solution", "one_solution"), ("acc_rewards_of_all_solutions", "all_solutions"),
                 ("sample_reward_next_state_terminal", "one_step"), ("constrained_variance", "bounded_variance"),
                 ("continuous_planning", "continuous"), ("discrete_planning", "discrete")):
        cx.same(C + m, "worlds." + s, "retv", opaque=plan, **n)

    cx.same(S + "__init__", "worlds.seq2reward_init", "attrs:state_dim,action_dim,num_hiddens,num_hidden_layers,rnn,lstm_linear,map_linear")
    cx.same(S + "forward", "worlds.seq2reward", "ret", opaque={"get_initial_hidden_state"}, **n)
    cx.same(S + "get_initial_hidden_state", "worlds.seq2reward_hidden", "ret", **n)
    cx.same("reagent.training.utils.gen_permutations", "worlds.permutations", "ret")
    t = T + "seq2reward_trainer."
    cx.same(t + "get_step_prediction", "worlds.step_probability", "ret")
    cx.same(t + "get_Q", "worlds.planned_values", "ret")
    q = t + "Seq2RewardTrainer."
    cx.same(q + "__init__", "worlds.seq2reward_trainer_init",
            "attrs:seq2reward_network,params,mse_optimizer,minibatch_size,view_q_value,all_permut,mse_loss,step_predict_network,step_loss,step_optimizer",
            opaque={"gen_permutations"})
    cx.same(q + "get_loss", "worlds.seq2reward_loss", "ret", **n)
    cx.same(q + "train", "worlds.seq2reward_train", "retv", steps, "calls:notify_observers", opaque={"get_loss", "get_Q", "get_step_prediction"}, **n)
    q = T + "compress_model_trainer.CompressModelTrainer."
    cx.same(q + "__init__", "worlds.compress_init", "attrs:compress_model_network,seq2reward_network,params,optimizer,minibatch_size,all_permut",
            opaque={"gen_permutations", "get_device"})
    cx.same(q + "train", "worlds.compress_train", "retv", steps, "calls:notify_observers", opaque={"get_loss"}, **n)
    cx.same(q + "get_loss", "worlds.compress_loss", "ret", opaque={"get_Q"}, **n)
    t = T + "mdnrnn_trainer.MDNRNNTrainer."
    cx.same(t + "__init__", "worlds.world_trainer_init", "attrs:memory_network,params,optimizer,minibatch,minibatch_size")
    cx.same("reagent.training.cem_trainer.CEMTrainer.__init__", "worlds.cem_trainer_init",
            "attrs:cem_planner_network,world_model_trainers,minibatch_size,minibatch")
    cx.same(M + "MDNRNNMemoryPool.__init__", "worlds.pool_init", "attrs:replay_memory,max_replay_memory_size,accu_memory_num")
    e = "reagent.evaluation.world_model_evaluator."
    evaluating = lambda p: p.modes(strict=False)
    where = "trainer.memory_network.mdnrnn"
    net = dict(modes={"get_loss": where, "mdnrnn": None}, opaque={"get_loss", "compute_median_feature_value"}, init=False)
    cx.same(e + "LossEvaluator.__init__", "worlds.loss_init", "attrs:trainer,state_dim")
    cx.same(e + "FeatureImportanceEvaluator.__init__", "worlds.importance_init", "attrs:trainer,discrete_action,state_feature_num,action_feature_num,"
            "sorted_action_feature_start_indices,sorted_state_feature_start_indices")
    cx.same(e + "FeatureSensitivityEvaluator.__init__", "worlds.sensitivity_init", "attrs:trainer,state_feature_num,sorted_state_feature_start_indices")
    cx.same(e + "LossEvaluator.evaluate", "worlds.losses", "retv", evaluating, **net)
    cx.same(e + "FeatureImportanceEvaluator.evaluate", "worlds.importance", "retv", evaluating, **net)
    cx.same(e + "FeatureImportanceEvaluator.compute_median_feature_value", "worlds.typical", "retv", **n)
    cx.same(e + "FeatureSensitivityEvaluator.evaluate", "worlds.sensitivity", "retv", evaluating, modes={"memory_network": where, "mdnrnn": None}, **n)
