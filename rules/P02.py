"""C51 and QR-DQN: projected / quantile Bellman targets."""
OPQ = {"_calculate_cpes", "log", "soft_update_result"}


def run(cx):
    cx.same("reagent.training.c51_trainer.C51Trainer.train_step_gen", "distributional.c51", "yields", opaque=OPQ)
    cx.same("reagent.training.qrdqn_trainer.QRDQNTrainer.train_step_gen", "distributional.qrdqn", "yields", opaque=OPQ)
    cx.same("reagent.training.qrdqn_trainer.QRDQNTrainer.get_detached_q_values", "distributional.qr_values", "retv")
