"""Discrete DQN: TD target, double-Q, masking, discounting."""
T = "reagent.training.dqn_trainer.DQNTrainer."
B = "reagent.training.dqn_trainer_base."
OPQ = {"_calculate_cpes", "get_valid_actions_from_imitator", "log", "soft_update_result"}


def run(cx):
    cx.same(T + "train_step_gen", "dqn.train_step_gen", "yields", "attrs:all_action_scores", opaque=OPQ)
    cx.same(T + "get_max_q_values_with_target", "dqn.max_q", "retv")
    cx.same(T + "get_max_q_values", "dqn.max_q_single", "retv")
    cx.same("reagent.training.imitator_training.get_valid_actions_from_imitator", "dqn.imitator_mask", "retv")
    I = "reagent.training.imitator_training.ImitatorTrainer."
    cx.same(I + "__init__", "dqn.imitator_built", "attrs:minibatch_size,minibatches_per_step,imitator,imitator_optimizer")
    cx.same(I + "_imitator_accuracy", "dqn.imitator_accuracy", "ret")
    cx.same(I + "train", "dqn.imitate", "retv", lambda p: p.calls("backward", "_maybe_run_optimizer", label="optimisation", grad=True),
            opaque={"_maybe_run_optimizer", "_imitator_accuracy"}, init=False)
