"""Episode rollouts: every step is recorded once, hooks see it once, episodes end at the first terminal step."""
G = "reagent.gym."
A = G + "agents.agent.Agent."
T = G + "types."
DS = G + "datasets.replay_buffer_dataset.ReplayBufferDataset."
STEP = "calls:reset,step,act,post_step,post_episode,increase_global_step"


def run(cx):
    agent = {A + "act", A + "post_step", A + "post_episode"}
    world = dict(volatile={"possible_actions_mask"}, mutators={"reset", "step"})
    conv = {"get_obs_preprocessor", "get_action_extractor", "get_serving_obs_preprocessor", "get_serving_action_extractor"}
    cx.same(G + "runners.gymrunner.run_episode", "rollouts.episode", "ret", STEP, "calls:add_transition", opaque=agent | {"add_transition", "increase_global_step"}, **world)
    cx.same(G + "runners.gymrunner.evaluate_for_n_episodes", "rollouts.evaluate", "ret", opaque={"run_episode", "wrap_function_arguments", "unwrap_function_outputs", "calculate_cumulative_reward"})
    cx.same(A + "__init__", "rollouts.agent_init", "attrs:policy,obs_preprocessor,action_extractor,post_transition_callback,post_episode_callback")
    cx.same(A + "create_for_env", "rollouts.for_env", "ret", opaque=conv | {"make_random_policy_for_env"})
    cx.same(A + "create_for_env_with_serving_policy", "rollouts.for_serving", "ret", opaque=conv)
    cx.same(A + "act", "rollouts.act", "ret", "calls:act,obs_preprocessor,action_extractor", init=False)
    cx.same(A + "post_step", "rollouts.post_step", "calls:post_transition_callback", init=False)
    cx.same(A + "post_episode", "rollouts.post_episode", "calls:post_episode_callback")
    hooks = {"sample_transition_batch", "make_replay_buffer_inserter", "make_replay_buffer_trainer_preprocessor", "make_trainer_preprocessor_online"}
    ev = lambda p: p.calls(kinds=("call", "store"), label="hook effects")
    cx.same(G + "agents.post_step.add_replay_buffer_post_step", "rollouts.store_hook", "ret", ev, opaque=hooks)
    cx.same(G + "agents.post_step.train_with_replay_buffer_post_step", "rollouts.train_hook", "ret", ev, opaque=hooks)
    cx.same(G + "agents.post_episode.train_post_episode", "rollouts.train_on_episode", "ret", ev, opaque=hooks)
    cx.same(T + "Transition.asdict", "rollouts.step_dict", "ret")
    cx.same(T + "get_optional_fields", "rollouts.optional_fields", "ret")
    cx.same(T + "Trajectory.__post_init__", "rollouts.no_fields_seen", "attrs:optional_field_exist", opaque={"get_optional_fields"})
    cx.same(T + "Trajectory.add_transition", "rollouts.add_transition", "attrs:transitions,optional_field_exist", "raises=")
    cx.same(T + "Trajectory.__getattr__", "rollouts.column", "ret")
    cx.same(T + "Trajectory.__len__", "rollouts.episode_length", "ret")
    cx.same(T + "Trajectory.calculate_cumulative_reward", "rollouts.discounted_return", "ret")
    cx.same(G + "utils.fill_replay_buffer", "rollouts.fill", "calls:run_episode,create_for_env,add_replay_buffer_post_step",
            volatile={"size"}, mutators={"run_episode"}, opaque={"run_episode", "create_for_env", "add_replay_buffer_post_step", "make_random_policy_for_env"})
    at = "attrs:_env,_agent,_replay_buffer,_batch_size,_training_frequency,_num_episodes,_max_steps,_trainer_preprocessor,_replay_buffer_inserter"
    cx.same(DS + "__init__", "rollouts.stream_init", at)
    cx.same(DS + "__iter__", "rollouts.stream", "yields", "calls:reset,step,act,_replay_buffer_inserter,sample_transition_batch", init=False, opaque=agent | {"sample_transition_batch"},
            volatile={"possible_actions_mask", "size"}, mutators={"reset", "step", "_replay_buffer_inserter"})
    cx.same(DS + "create_for_trainer", "rollouts.stream_for", "ret", opaque=hooks)
