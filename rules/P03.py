"""Parametric DQN and SlateQ targets."""
from .P18 import records

OPQ = {"log", "soft_update_result", "get_tiled_batch", "select_slate", "as_feature_data", "repeat_interleave"}


def run(cx):
    cx.same("reagent.training.parametric_dqn_trainer.ParametricDQNTrainer.train_step_gen", "parametric.train_step_gen", "yields", opaque=OPQ)
    cx.same("reagent.training.slate_q_trainer.SlateQTrainer.train_step_gen", "parametric.slate_q", "yields", opaque=OPQ)
    records(cx)
