"""CPE heads: columns and targets."""
OPQ = {"log"}
B = "reagent.training.dqn_trainer_base.DQNTrainerBaseLightning._calculate_cpes"


def run(cx):
    for c in ("dqn_trainer.DQNTrainer", "qrdqn_trainer.QRDQNTrainer", "discrete_crr_trainer.DiscreteCRRTrainer"):
        cx.same(B, "cpe.calculate", "yields", opaque=OPQ, cls="reagent.training." + c)
    cx.same("reagent.torch_utils.masked_softmax", "cpe.softmax_over_possible", "ret")
    cx.same("reagent.torch_utils.softmax", "cpe.plain_softmax", "ret")
    R = "reagent.training.rl_trainer_pytorch.RLTrainer."
    E = {"masked_softmax", "_maybe_run_optimizer", "_maybe_soft_update"}
    cx.same(R + "_initialize_cpe", "cpe.eager_setup", "attrs:reward_network,reward_network_optimizer,q_network_cpe,q_network_cpe_target,q_network_cpe_optimizer,reward_idx_offsets", init=False)
    cx.same(R + "_calculate_cpes", "cpe.eager", "retv", lambda p: p.calls("backward", "_maybe_run_optimizer", "_maybe_soft_update", label="optimisation", grad=True), opaque=E, init=False)
