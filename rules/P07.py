"""REINFORCE and PPO objectives."""
R = "reagent.training.reinforce.Reinforce."
Q = "reagent.training.ppo_trainer.PPOTrainer."
U = "reagent.training.utils."
STEP = "calls:zero_grad,backward,step,update_model"


def run(cx):
    cx.same(R + "train", "policy_gradient.reinforce", "attrsg:losses,value_net_losses", "attrs:step", "calls:update_model", "raises=",
            opaque={"update_model"})
    cx.same(R + "update_model", "policy_gradient.reinforce_update", STEP, "attrs:losses,value_net_losses")
    cx.same(Q + "_trajectory_to_losses", "policy_gradient.ppo_losses", "ret", "raises=")
    cx.same(Q + "update_model", "policy_gradient.ppo_update", STEP, "attrs:traj_buffer", opaque={"_trajectory_to_losses"})
    cx.same(Q + "train", "policy_gradient.ppo_train", STEP, "attrs:traj_buffer,step", opaque={"update_model"})
    cx.same(U + "whiten", "policy_gradient.whiten", "ret")
    cx.same(U + "discounted_returns", "policy_gradient.returns_to_go", "retv")
