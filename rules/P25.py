"""Evaluation pages: consulted networks are in evaluation mode, every column derives from the batch's own rows."""
E = "reagent.evaluation.evaluation_data_page.EvaluationDataPage."
modes = lambda p: p.modes()


def run(cx):
    cx.same(E + "create_from_training_batch", "pages.dispatch", "ret", "raises=",
            opaque={"create_from_tensors_dqn", "create_from_tensors_parametric_dqn"})
    cx.same(E + "create_from_tensors_dqn", "pages.discrete", "retv", modes,
            opaque={"get_detached_q_values", "get_max_q_values", "boost_rewards", "masked_softmax"},
            modes={"q_network": None, "reward_network": None, "q_network_cpe": None, "get_detached_q_values": ".q_network"})
    cx.same(E + "create_from_tensors_parametric_dqn", "pages.parametric", "retv", modes,
            opaque={"get_detached_q_values", "masked_softmax"},
            modes={"q_network": None, "reward_network": None, "get_detached_q_values": ".q_network"})
    cx.same(E + "create_from_tensors_seq2slate", "pages.slate", "retv", modes,
            modes={"seq2slate_net": None, "reward_network": None})
    cx.same(E + "append", "pages.append", "ret", "raises=")
    cx.same(E + "sort", "pages.sort", "ret")
    cx.same(E + "compute_values", "pages.values", "ret", opaque={"compute_values_for_mdps"})
    cx.same(E + "compute_values_for_mdps", "pages.returns", "ret")
    cx.same(E + "set_metric_as_reward", "pages.metric", "ret")
    V = "reagent.evaluation."
    L = V + "ranking_listwise_evaluator.RankingListwiseEvaluator."
    G = V + "ranking_policy_gradient_evaluator.RankingPolicyGradientEvaluator."
    W = V + "reward_net_evaluator.RewardNetEvaluator."
    cx.same(L + "evaluate", "pages.listwise", "calls:notify_observers", modes, modes={"seq2slate_net": None})
    cx.same(L + "__init__", "pages.listwise_init", "attrs:seq2slate_net,slate_size,calc_cpe,log_softmax,kl_loss")
    cx.same(G + "evaluate", "pages.gradient", "calls:notify_observers", "attrs:eval_data_pages_g,eval_data_pages_ng", modes,
            opaque={"create_from_tensors_seq2slate", "append"}, init=False,
            modes={"seq2slate_net": None, "baseline_net": None, "create_from_tensors_seq2slate": False})
    cx.same(G + "evaluate_post_training", "pages.gradient_end", "calls:notify_observers", "attrs:eval_data_pages_g,eval_data_pages_ng", init=False)
    cx.same(G + "__init__", "pages.gradient_init", "attrs:trainer,calc_cpe,reward_network,eval_data_pages_g,eval_data_pages_ng")
    cx.same(W + "evaluate", "pages.reward_net", "attrs:loss,rewards,pred_rewards", modes, init=False, modes={"reward_net": None})
    cx.same(W + "evaluate_post_training", "pages.reward_net_end", "ret", "attrs:loss,rewards,pred_rewards,best_model,best_model_loss", init=False)
    cx.same(W + "__init__", "pages.reward_net_init", "attrs:trainer,loss,rewards,pred_rewards,best_model,best_model_loss")
    cx.same(V + "seq2reward_evaluator.Seq2RewardEvaluator.evaluate", "pages.seq2reward", "retv", "calls:notify_observers", modes,
            opaque={"get_loss", "get_Q"}, modes={"seq2reward_network": None, "get_loss": "reward_net"})
    cx.same(V + "compress_model_evaluator.CompressModelEvaluator.evaluate", "pages.compress", "retv", "calls:notify_observers", modes,
            opaque={"get_loss", "get_Q"}, modes={"compress_model_network": None, "get_loss": "compress_model_network"})
    cx.same(V + "seq2reward_evaluator.Seq2RewardEvaluator.__init__", "pages.seq2reward_init", "attrs:trainer,reward_net")
    cx.same(V + "compress_model_evaluator.CompressModelEvaluator.__init__", "pages.compress_init", "attrs:trainer,compress_model_network")
    C = "reagent.training.discrete_crr_trainer.DiscreteCRRTrainer."
    cx.same(C + "get_detached_q_values", "pages.crr_values", "retv", init=False)
    cx.same(C + "q_network", "pages.crr_network", "ret", init=False)
    D = "reagent.training.dqn_trainer_base.DQNTrainerBaseLightning."
    cx.same(D + "gather_eval_data", "pages.gathered", "ret", init=False, opaque={"create_from_training_batch", "append", "sort", "compute_values", "validate"})
    cx.same(D + "test_epoch_end", "pages.tested", lambda p: p.calls("evaluate_post_training", "log", label="evaluation"), init=False, opaque={"gather_eval_data"})
    cx.same(D + "test_step", "pages.test_step", "ret", init=False)
