"""Ranking trainers: which slate is weighted by what, and which network learns from which loss."""
R = "reagent.training.ranking."
T = R + "seq2slate_trainer.Seq2SlateTrainer."
A = R + "seq2slate_attn_trainer.Seq2SlatePairwiseAttnTrainer."
F = R + "seq2slate_tf_trainer.Seq2SlateTeacherForcingTrainer."
D = R + "seq2slate_dr_trainer.Seq2SlateDifferentiableRewardTrainer."
S = R + "seq2slate_sim_trainer."
W = "reagent.training.reward_network_trainer."


def run(cx):
    steps = lambda p: p.calls("backward", "step", "zero_grad", label="optimisation steps", grad=True)
    say = "calls:notify_observers"
    op = {"ips_clamp", "_compute_impt_smpl", "_transform_label", "per_symbol_to_per_seq_log_probs"}
    sv = dict(init=False, opaque=op)
    cx.same(R + "helper.ips_clamp", "ranking_train.clamped", "ret")
    cx.same(T + "__init__", "ranking_train.reinforce_init", "attrs:seq2slate_net,parameters,policy_gradient_interval,minibatch,baseline_net,"
            "baseline_warmup_num_batches,rl_opt,baseline_opt")
    cx.same(T + "_compute_impt_smpl", "ranking_train.weights", "ret", init=False, opaque={"ips_clamp"})
    cx.same(T + "train", "ranking_train.reinforce", steps, say, "attrs:minibatch", **sv)
    cx.same(A + "__init__", "ranking_train.pairwise_init", "attrs:seq2slate_net,minibatch,optimizer,log_softmax,kl_loss")
    cx.same(A + "train", "ranking_train.pairwise", "ret", steps, say, "attrs:minibatch", **sv)
    cx.same(F + "__init__", "ranking_train.forced_init", "attrs:seq2slate_net,policy_gradient_interval,minibatch,optimizer,kl_div_loss")
    cx.same(F + "train", "ranking_train.forced", "ret", steps, "attrs:minibatch", **sv)
    cx.same(F + "_transform_label", "ranking_train.one_hot_label", "ret", init=False)
    cx.same(D + "__init__", "ranking_train.soft_init", "attrs:seq2slate_net,parameters,minibatch,optimizer,kl_div_loss")
    cx.same(D + "train", "ranking_train.soft_reward", "ret", steps, "attrs:minibatch", **sv)
    cx.same(D + "_transform_label", "ranking_train.one_hot_label", "ret", init=False)
    cx.same(S + "_load_reward_net", "ranking_train.load_rewards", "ret")
    cx.same(S + "swap_dist_in_slate", "ranking_train.inversions", "ret")
    cx.same(S + "swap_dist_out_slate", "ranking_train.skipped", "ret")
    cx.same(S + "swap_dist", "ranking_train.distance", "ret", opaque={"swap_dist_in_slate", "swap_dist_out_slate"})
    C = S + "Seq2SlateSimulationTrainer."
    cx.same(C + "__init__", "ranking_train.sim_init", "attrs:sim_param,reward_name_and_net,parameters,MAX_DISTANCE,trainer,seq2slate_net,baseline_net")
    cx.same(C + "_simulated_training_input", "ranking_train.simulated", "retv", init=False, opaque={"gather", "swap_dist", "_load_reward_net", "from_input"})
    cx.same(C + "train", "ranking_train.sim_train", "ret", init=False, opaque={"_simulated_training_input", T + "train"})
    cx.same(W + "_get_loss_function", "ranking_train.reward_loss", "ret")
    cx.same(W + "RewardNetTrainer.__init__", "ranking_train.reward_init", "attrs:reward_net,minibatch,opt,loss_type,loss_fn,reward_ignore_threshold", opaque={"_get_loss_function"})
    cx.same(W + "RewardNetTrainer.train", "ranking_train.reward_train", "ret", steps, "attrs:minibatch", init=False)
