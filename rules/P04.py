"""SAC and TD3 objectives."""
OPQ = {"log", "soft_update_result", "get_weight_from_advantage"}


def run(cx):
    cx.same("reagent.training.sac_trainer.SACTrainer.train_step_gen", "actor_critic.sac", "yields", "attrs:entropy_temperature", opaque=OPQ)
    cx.same("reagent.training.sac_trainer.CRRWeightFn.get_weight_from_advantage", "actor_critic.advantage_weight", "ret")
    cx.same("reagent.training.td3_trainer.TD3Trainer.train_step_gen", "actor_critic.td3", "yields", opaque=OPQ)
