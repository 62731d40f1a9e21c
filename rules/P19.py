"""Replay samples become training batches; transitions become replay entries."""
from .P18 import records

M = "reagent.gym.preprocessors.trainer_preprocessor."
R = "reagent.gym.preprocessors.replay_buffer_inserters."


def run(cx):
    cx.same(M + "make_trainer_preprocessor", "makers.preprocessor", "ret")
    cx.same(M + "make_trainer_preprocessor_online", "makers.online", "ret", opaque={"make_trainer_preprocessor"})
    cx.same(M + "make_replay_buffer_trainer_preprocessor", "makers.from_replay", "ret", opaque={"make_trainer_preprocessor"})
    cx.same(M + "one_hot_actions", "makers.one_hot", "ret")
    cx.same("reagent.training.utils.rescale_actions", "makers.rescaled", "ret")
    cx.same(M + "get_possible_actions_for_gym", "makers.tiled_actions", "ret")
    for cls, init, attrs, make, call in (
        ("DiscreteDqnInputMaker", "dqn_init", "num_actions,trainer_preprocessor", "dqn_for_env", "dqn"),
        ("PolicyNetworkInputMaker", "policy_init", "action_low,action_high,train_low,train_high", "box_for_env", "policy"),
        ("SlateQInputMaker", "watch_time", "metric", "plain", "slate_q"),
        ("MemoryNetworkInputMaker", "counted", "num_actions", "memory_for_env", "memory"),
        ("ParametricDqnInputMaker", "counted", "num_actions", "discrete_for_env", "parametric"),
        ("PolicyGradientInputMaker", "gradient_init", "num_actions,recsim_obs", "gradient_for_env", "gradient"),
    ):
        cx.same(M + cls + ".__init__", "makers." + init, "attrs:" + attrs)
        cx.same(M + cls + ".create_for_env", "makers." + make, "ret", "raises=")
        cx.same(M + cls + ".__call__", "makers." + call, "ret", init=False, opaque={"_get_recsim_state", "_embed_states"})
    cx.same(M + "PolicyGradientInputMaker._get_recsim_state", "makers.recsim_state", "ret", init=False)
    cx.same(R + "BasicReplayBufferInserter.__call__", "makers.basic", "calls:add", opaque={"asdict", "add"})
    cx.same(R + "RecSimReplayBufferInserter.__init__", "makers.inserter_init", "attrs:num_docs,num_responses,discrete_keys,box_keys,"
            "response_discrete_keys,response_box_keys,augmentation_discrete_keys,augmentation_box_keys")
    cx.same(R + "RecSimReplayBufferInserter.create_for_env", "makers.inserter_for_env", "ret", "raises=")
    cx.same(R + "RecSimReplayBufferInserter.__call__", "makers.insert", "calls:add", init=False, opaque={"asdict", "add"})
    cx.same(R + "make_replay_buffer_inserter", "makers.chosen_inserter", "ret")
    records(cx)
