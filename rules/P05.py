"""Discrete CRR objectives."""
OPQ = {"log", "soft_update_result", "_calculate_cpes"}


def run(cx):
    cx.same("reagent.training.discrete_crr_trainer.DiscreteCRRTrainer.train_step_gen", "actor_critic.crr", "yields", opaque=OPQ)
