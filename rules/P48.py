"""Bundled environments: states, rewards, episode ends and legal actions follow the declared dynamics."""
G = "reagent.gym.envs."
L = G + "dynamics.linear_dynamics.LinDynaEnv."
PT = G + "functionality.possible_actions_mask_tester."
A = G + "changing_arms."
S0 = G + "pomdp.string_game.StringGameEnv."
S1 = G + "pomdp.string_game_v1.StringGameEnvV1."
PM = G + "pomdp.pocman."
O = G + "oracle_pvm.OraclePVM."
T = G + "toy_vm."
R = G + "recsim."
E = G + "pomdp.state_embed_env.StateEmbedEnvironment."


def _stored(v):
    return v.args[1].args[1] if v.op == "tuple" and v.args[1].op == "const" else None


def run(cx):
    n = dict(init=False)
    cx.same(L + "__init__", "dynamics.linear_init", "attrs:max_steps,state_dim,action_dim,action_space,observation_space,A,B,Q,R")
    cx.same(L + "is_pos_def", "dynamics.definite", "ret")
    cx.same(L + "reset", "dynamics.linear_reset", "ret", "written", **n)
    cx.same(L + "step", "dynamics.linear_step", "ret", "written", **n)

    t = PT + "PossibleActionsMaskTester."
    cx.same(t + "__init__", "dynamics.tester_init", "attrs:max_steps,action_num,cur_step,observation_space,action_space")
    cx.same(t + "_update_possible_actions_mask", "dynamics.tester_mask", "written", lambda p: p.calls(kinds=("setitem",), label="allowed action"), **n)
    cx.same(PT + "_get_state", "dynamics.tester_state", "ret")
    sub = {"_update_possible_actions_mask", "_get_state"}
    cx.same(t + "reset", "dynamics.tester_reset", "ret", "written", "calls:_update_possible_actions_mask", opaque=sub, **n)
    cx.same(t + "step", "dynamics.tester_step", "ret", "written", "calls:_update_possible_actions_mask", opaque=sub, **n)

    e = A + "ChangingArmsEnv."
    cx.same(e + "__init__", "dynamics.arms_init", "attrs:num_arms,max_steps", "calls:seed", opaque={"seed"})
    cx.same(A + "get_initial_mus", "dynamics.arms_mus", "ret")
    cx.same(A + "get_mu_changes", "dynamics.arms_changes", "ret")
    cx.same(A + "get_legal_indices_mask", "dynamics.arms_legal", "ret")
    arm = lambda p: p.calls(kinds=("setitem",), label="updated arms")
    cx.same(e + "step", "dynamics.arms_step", "ret", "written", arm, opaque={"state"}, **n)
    cx.same(e + "reset", "dynamics.arms_reset", "ret", "written", opaque={"state"}, **n)
    cx.same(e + "state", "dynamics.arms_state", "ret", "written", **n)
    cx.same(e + "observation_space", "dynamics.arms_space", "ret", **n)
    cx.same(e + "action_space", "dynamics.arms_actions", "ret", **n)
    cx.same(A + "ChangingArms.normalization_data", "dynamics.arms_norm", "ret", opaque={"only_continuous_normalizer"}, **n)
    cx.same(A + "ChangingArms.make", "dynamics.arms_make", "ret", **n)

    seeds = lambda p: p.calls("seed", "manual_seed", label="seeds")
    cx.same(e + "seed", "dynamics.arms_seed", seeds, **n)
    cx.same(S0 + "seed", "dynamics.string_seed", seeds, **n)
    cx.same(S1 + "seed", "dynamics.string_seed", seeds, **n)
    cx.same(PM + "PocManEnv.seed", "dynamics.pocman_seed", seeds, **n)
    cx.same(E + "seed", "dynamics.embed_seed", seeds, **n)

    g = dict(init=False, opaque={"get_reward", "get_observation", "sample_terminal"})
    hist = lambda p: p.calls("append", label="history")
    cx.same(S0 + "__init__", "dynamics.string_init", "attrs:max_steps,action_space,observation_space,reward_map,recent_actions,recent_states,cur_state,step_cnt,done", seeds)
    cx.same(S0 + "_init_reward", "dynamics.string_rewards", lambda p: p.calls(kinds=("setitem",), label="reward table"), **n)
    cx.same(S0 + "get_reward", "dynamics.string_reward", "ret", **n)
    cx.same(S0 + "step", "dynamics.string_step", "ret", "written", hist, **g)
    cx.same(S0 + "get_observation", "dynamics.string_obs", "ret", **n)
    cx.same(S0 + "reset", "dynamics.string_reset", "ret", "written", **g)
    cx.same(S1 + "__init__", "dynamics.game_init", "attrs:max_steps,action_space,observation_space,reward_map,terminal_probs,recent_actions,step_cnt,done", seeds)
    cx.same(S1 + "_init_reward_and_terminal_probs", "dynamics.game_rewards", lambda p: p.calls(kinds=("setitem",), label="reward table"), **n)
    cx.same(S1 + "get_reward", "dynamics.game_reward", "ret", **n)
    cx.same(S1 + "step", "dynamics.game_step", "ret", "written", hist, **g)
    cx.same(S1 + "sample_terminal", "dynamics.game_ends", "ret", **n)
    cx.same(S1 + "get_observation", "dynamics.string_obs", "ret", **n)
    cx.same(S1 + "reset", "dynamics.game_reset", "ret", "written", **g)

    cx.same(PM + "manhattan_distance", "dynamics.distance", "ret")
    cx.same(PM + "select_maze", "dynamics.boards", "ret", "raises")
    cx.same(PM + "opposite_direction", "dynamics.opposite", "ret")
    cx.same(PM + "Position.__eq__", "dynamics.same_place", "ret", **n)
    cx.same(PM + "InternalState.__init__", "dynamics.state_init", "attrs:agent_pos,ghosts,food_pos,power_duration")
    h = PM + "Ghost."
    moves = dict(init=False, opaque={"next_pos", "_move_random", "_move_aggressive", "_move_defensive"})
    cx.same(h + "__init__", "dynamics.ghost_init", "attrs:env,pos,direction,ghost_range,move_type")
    cx.same(h + "move", "dynamics.ghost_move", "written", "calls:_move_random,_move_aggressive,_move_defensive", **moves)
    cx.same(h + "_move_random", "dynamics.ghost_random", "written", **moves)
    cx.same(h + "_move_aggressive", "dynamics.ghost_chase", "written", **moves)
    cx.same(h + "_move_defensive", "dynamics.ghost_flee", "written", **moves)
    cx.same(h + "reset", "dynamics.ghost_home", "written", opaque={"random_action"}, **n)
    p = PM + "PocManEnv."
    parts = dict(init=False, opaque={"next_pos", "_passable", "_inside", "_make_ob", "_agent_at_food", "_agent_at_power", "_food_left", "_see_ghost", "_hear_ghost",
                                     "_smell_food", "_wall_between", "_get_init_state", "move", "random_action"})
    for m, s in (("_passable", "free"), ("_inside", "inside"), ("next_pos", "next_place"), ("_agent_at_food", "at_food"), ("_agent_at_power", "at_power"),
                 ("_make_ob", "pocman_obs"), ("_see_ghost", "sees"), ("_smell_food", "smells"), ("_hear_ghost", "hears"), ("_wall_between", "walled"),
                 ("_food_left", "food_left")):
        cx.same(p + m, "dynamics." + s, "ret", **parts)
    cx.same(p + "step", "dynamics.pocman_step", "ret", "written", "calls:move,reset", lambda q: q.calls(kinds=("setitem", "store"), label="board"), **parts)
    cx.same(p + "reset", "dynamics.pocman_reset", "ret", "written", "calls:_get_init_state", **parts)
    cx.same(p + "_get_init_state", "dynamics.pocman_fresh", "ret", "written", lambda q: q.calls("append", label="ghosts"),
            lambda q: q.calls(kinds=("store",), where=lambda v: _stored(v) in ("max_x", "max_y", "home", "agent_pos", "ghosts"), label="board layout"), **parts)

    o = dict(init=False, opaque={"_get_scores", "_get_ranking", "create_from_env", "_embed_states",
                                 "reagent.gym.preprocessors.default_preprocessors.RecsimObsPreprocessor.__call__"})
    cx.same(O + "reset", "dynamics.oracle_reset", "ret", "attrs:prev_obs", "calls:update", **o)
    cx.same(O + "step", "dynamics.oracle_step", "ret", **o)
    cx.same(O + "is_match", "dynamics.oracle_match", "ret", **n)
    cx.same(O + "action_space", "dynamics.oracle_space", "ret", **n)
    cx.same(O + "_get_scores", "dynamics.oracle_scores", "ret", **n)
    cx.same(O + "_get_ranking", "dynamics.oracle_ranking", "ret", **n)
    cx.same(O + "obs_preprocessor", "dynamics.oracle_obs", "ret", **o)
    cx.same(O + "serving_obs_preprocessor", "dynamics.oracle_served", "ret", **o)
    cx.same(G + "oracle_pvm.get_ground_truth_weights", "dynamics.oracle_weights", "ret")

    v = T + "ToyVMEnv."
    cx.same(T + "simulate_reward", "dynamics.toy_reward", "ret")
    cx.same(T + "random_document", "dynamics.toy_document", "ret")
    cx.same(T + "zero_augment", "dynamics.toy_zero", "ret")
    cx.same(v + "__init__", "dynamics.toy_init", "attrs:slate_size,action_space,observation_space,response_space,_doc_sampler,_reward_prng")
    cx.same(v + "seed", "dynamics.toy_seed", "ret", "written", **n)
    cx.same(v + "_sample_candidates", "dynamics.toy_candidates", "ret", "written", **n)
    cx.same(v + "step", "dynamics.toy_step", "ret", "written", opaque={"_sample_candidates"}, **n)
    cx.same(v + "reset", "dynamics.toy_reset", "ret", opaque={"_sample_candidates"}, **n)
    w = T + "ToyVM."
    cx.same(w + "make", "dynamics.toy_make", "ret", seeds, **n)
    cx.same(w + "action_extractor", "dynamics.toy_action", "ret", **n)
    for m in ("obs_preprocessor", "serving_obs_preprocessor"):
        cx.same(w + m, "dynamics.toy_obs", "ret", **o)

    cx.same(R + "MulticlickIEvUserModel.simulate_response", "dynamics.clicks", "ret", lambda q: q.calls("_generate_click_response", "score_documents", label="clicks"),
            lambda q: q.calls(kinds=("store",), label="shown items"), **n)
    cx.same(R + "UserState.score_document", "dynamics.score_document", "ret", **n)

    cx.same(E + "__init__", "dynamics.embed_init", "attrs:env,max_embed_seq_len,mdnrnn,embed_size,raw_state_dim,state_dim,is_discrete_action,action_dim,action_space,"
            "observation_space,cur_raw_state,recent_states,recent_actions")
    cx.same(E + "embed_state", "dynamics.embed", "retv", lambda q: q.modes(), modes={"mdnrnn": "mdnrnn.mdnrnn"}, **n)
    cx.same(E + "reset", "dynamics.embed_reset", "ret", "written", opaque={"embed_state"}, **n)
    cx.same(E + "step", "dynamics.embed_step", "ret", "written", hist, opaque={"embed_state"}, **n)

    for q in (S0, S1):
        cx.same(q + "random_action", "dynamics.string_random", "ret")
    cx.same(PM + "PocManEnv.random_action", "dynamics.pocman_random", "ret")
    cx.same(PM + "PocManEnv.__init__", "dynamics.pocman_init", "attrs:board,max_steps,action_space,observation_space,step_cnt", "calls:_get_init_state", opaque={"_get_init_state"})
    cx.same(O + "__post_init_post_parse__", "dynamics.oracle_init", "written", **n)
    cx.same(G + "oracle_pvm.get_default_score_fns", "dynamics.oracle_fns", "ret")
    cx.same(PT + "PossibleActionsMaskTester._get_state", "dynamics.tester_current", "ret", opaque={PT + "_get_state"}, **n)
    cx.same(G + "wrappers.recsim.ValueWrapper.__init__", "dynamics.value_init", "attrs:value_fn")
    cx.same(G + "oracle_pvm.make_default_score_fn", "dynamics.oracle_fn", "ret")
