"""Gym boundary: what an environment receives and returns is the documented conversion of what the policy sees."""
G = "reagent.gym."
W = G + "envs.env_wrapper.EnvWrapper."
E = G + "envs.gym.Gym."
R = G + "envs.recsim.RecSim."
RP = G + "preprocessors.default_preprocessors.RecsimObsPreprocessor."
CA = G + "envs.changing_arms.ChangingArms."
V = G + "envs.wrappers.recsim.ValueWrapper."
M = G + "envs.wrappers.simple_minigrid.SimpleObsWrapper."


def run(cx):
    cx.same(W + "action_extractor", "gymio.action_sent", "ret", "raises=")
    cx.same(W + "serving_action_extractor", "gymio.action_served", "ret", "raises=")
    ex = {"action_extractor", "serving_action_extractor", "obs_preprocessor", "serving_obs_preprocessor"}
    cx.same(W + "get_action_extractor", "gymio.as_numpy", "ret", opaque=ex)
    cx.same(W + "get_serving_action_extractor", "gymio.served_as_numpy", "ret", opaque=ex)
    cx.same(W + "get_obs_preprocessor", "gymio.on_device", "ret", opaque=ex)
    cx.same(W + "get_serving_obs_preprocessor", "gymio.served_obs", "ret", opaque=ex)
    cx.same(W + "max_steps", "gymio.step_limit", "ret")
    cx.same(W + "possible_actions_mask", "gymio.mask", "ret")
    cx.same(E + "make", "gymio.gym_make", "ret")
    cx.same(E + "obs_preprocessor", "gymio.gym_obs", "ret", "raises=")
    cx.same(E + "serving_obs_preprocessor", "gymio.gym_served", "ret", "raises=")
    cx.same(M + "observation", "gymio.grid_obs", "ret")
    cx.same(M + "__init__", "gymio.grid_space", "attrs:observation_space", init=False)
    cx.same(V + "observation", "gymio.value_obs", "ret", lambda p: p.calls(kinds=("setitem", "store"), label="recorded values"), init=False)
    cx.same(R + "make", "gymio.rec_make", "ret")
    cx.same(R + "obs_preprocessor", "gymio.rec_obs", "ret", opaque={"create_from_env", RP + "__call__"})
    cx.same(R + "serving_obs_preprocessor", "gymio.rec_obs", "ret", opaque={"create_from_env", RP + "__call__"})
    cx.same(R + "reset", "gymio.rec_reset", "ret")
    cx.same(R + "step", "gymio.rec_step", "ret")
    cx.same(G + "envs.recsim.dot_value_fn", "gymio.dot_value", "ret")
    cx.same(G + "envs.recsim.multi_selection_value_fn", "gymio.half_value", "ret")
    cx.same(RP + "create_from_env", "gymio.rec_layout", "ret", "raises=")
    cx.same(RP + "__init__", "gymio.rec_layout_init", "attrs:num_docs,discrete_keys,box_keys")
    cx.same(RP + "__call__", "gymio.rec_features", "ret", init=False)
    cx.same(CA + "obs_preprocessor", "gymio.arm_obs", "ret")
    cx.same(CA + "serving_obs_preprocessor", "gymio.arm_served", "ret")
    cx.same(CA + "split_state_transform", "gymio.arm_logged", "ret")
    cx.same(CA + "trainer_preprocessor", "gymio.arm_batch", "ret")
    nz = {"only_continuous_normalizer", "discrete_action_normalizer", "only_continuous_action_normalizer"}
    cx.same(G + "utils.build_state_normalizer", "gymio.state_normalizer", "ret", "raises=", opaque=nz)
    cx.same(G + "utils.build_action_normalizer", "gymio.action_normalizer", "ret", "raises=", opaque=nz)
