"""Reference definitions: episode rollouts, agents, step hooks and trajectories."""
from dataclasses import asdict, fields

import pickle

import numpy as np
import torch
import torch.multiprocessing as mp
from reagent.core.multiprocess_utils import unwrap_function_outputs, wrap_function_arguments
from reagent.gym.agents.agent import Agent
from reagent.gym.agents.post_step import add_replay_buffer_post_step
from reagent.gym.policies.random_policies import make_random_policy_for_env
from reagent.gym.preprocessors import make_replay_buffer_inserter, make_replay_buffer_trainer_preprocessor, make_trainer_preprocessor_online
from reagent.gym.runners.gymrunner import run_episode
from reagent.gym.types import Trajectory, Transition, get_optional_fields
from reagent.tensorboardX import SummaryWriterContext


def episode(env, agent, mdp_id, max_steps):
    record = Trajectory()
    seen = env.reset()
    mask = env.possible_actions_mask
    over = False
    t = 0
    while not over:
        action, log_prob = agent.act(seen, mask)
        after, reward, over, _info = env.step(action)
        mask_after = env.possible_actions_mask
        # the step limit counts from zero: the episode is cut at the first step whose number reaches it
        if max_steps is not None and t >= max_steps:
            over = True
        made = Transition(mdp_id=mdp_id, sequence_number=t, observation=seen, action=action, reward=float(reward), terminal=bool(over),
                          log_prob=log_prob, possible_actions_mask=mask)
        agent.post_step(made)
        record.add_transition(made)
        SummaryWriterContext.increase_global_step()
        seen = after
        mask = mask_after
        t += 1
    agent.post_episode(record)
    return record


def evaluate(n, env, agent, max_steps, gammas, num_processes):
    workers = min(num_processes, n)

    def one(mdp_id, env, agent, max_steps, gammas):
        out = np.empty((len(gammas),))
        played = run_episode(env=env, agent=agent, mdp_id=mdp_id, max_steps=max_steps)
        for i, gamma in enumerate(gammas):
            out[i] = played.calculate_cumulative_reward(gamma)
        return out

    got = None
    if workers > 1:
        try:
            with mp.Pool(workers) as pool:
                got = unwrap_function_outputs(
                    pool.map(wrap_function_arguments(one, env=env, agent=agent, max_steps=max_steps, gammas=gammas), range(n)))
        except pickle.PickleError:
            pass
    if got is None:
        got = [one(mdp_id=i, env=env, agent=agent, max_steps=max_steps, gammas=gammas) for i in range(n)]
    return np.array(got)


def agent_init(self, ctor):
    self.policy = ctor.policy
    self.obs_preprocessor = ctor.obs_preprocessor
    self.action_extractor = ctor.action_extractor
    self.post_transition_callback = ctor.post_transition_callback
    self.post_episode_callback = ctor.post_episode_callback
    return self


def for_env(self, env, policy, device, obs_preprocessor, action_extractor, **kwargs):
    device = torch.device(device) if isinstance(device, str) else device
    seen = env.get_obs_preprocessor(device=device) if obs_preprocessor is None else obs_preprocessor
    sent = env.get_action_extractor() if action_extractor is None else action_extractor
    chosen = make_random_policy_for_env(env) if policy is None else policy
    return self(chosen, obs_preprocessor=seen, action_extractor=sent, **kwargs)


def for_serving(self, env, serving_policy, obs_preprocessor, action_extractor, **kwargs):
    seen = env.get_serving_obs_preprocessor() if obs_preprocessor is None else obs_preprocessor
    sent = env.get_serving_action_extractor() if action_extractor is None else action_extractor
    return self(serving_policy, obs_preprocessor=seen, action_extractor=sent, **kwargs)


def act(self, ctor, obs, possible_actions_mask):
    chosen = self.policy.act(self.obs_preprocessor(obs), possible_actions_mask)
    density = None if chosen.log_prob is None else chosen.log_prob.cpu().squeeze(0).item()
    return self.action_extractor(chosen), density


def post_step(self, ctor, transition):
    if self.post_transition_callback is not None:
        self.post_transition_callback(transition)


def post_episode(self, ctor, trajectory):
    if self.post_episode_callback is not None:
        self.post_episode_callback(trajectory)


def store_hook(replay_buffer, env, replay_buffer_inserter):
    inserter = make_replay_buffer_inserter(env) if replay_buffer_inserter is None else replay_buffer_inserter

    def hook(transition):
        inserter(replay_buffer, transition)

    return hook


def train_hook(replay_buffer, env, trainer, training_freq, batch_size, trainer_preprocessor, device, replay_buffer_inserter):
    device = torch.device(device) if isinstance(device, str) else device
    prepare = make_replay_buffer_trainer_preprocessor(trainer, device, env) if trainer_preprocessor is None else trainer_preprocessor
    inserter = make_replay_buffer_inserter(env) if replay_buffer_inserter is None else replay_buffer_inserter
    seen = 0

    def hook(transition):
        nonlocal seen
        inserter(replay_buffer, transition)
        if seen % training_freq == 0:
            trainer.train(prepare(replay_buffer.sample_transition_batch(batch_size=batch_size)))
        seen += 1

    return hook


def train_on_episode(env, trainer, use_gpu):
    prepare = make_trainer_preprocessor_online(trainer, torch.device("cuda") if use_gpu else torch.device("cpu"), env)

    def hook(trajectory):
        trainer.train(prepare(trajectory))

    return hook


def step_dict(self):
    return {k: v for k, v in asdict(self).items() if v is not None}


def optional_fields(cls):
    return [f.name for f in fields(cls) if hasattr(f.type, "__args__") and type(None) in f.type.__args__]


def add_transition(self, transition):
    if len(self.transitions) == 0:
        for f in self.optional_field_exist:
            if getattr(transition, f, None) is not None:
                self.optional_field_exist[f] = True
    for f, expected in self.optional_field_exist.items():
        if (getattr(transition, f, None) is not None) != expected:
            raise ValueError()
    self.transitions.append(transition)


def column(self, attr):
    return [getattr(t, attr) for t in self.transitions]


def episode_length(self):
    return len(self.transitions)


def no_fields_seen(self):
    self.optional_field_exist = {f: False for f in get_optional_fields(Transition)}
    return self


def discounted_return(self, gamma):
    return sum(r * gamma ** i for i, r in enumerate(self.reward))


def fill(env, replay_buffer, desired_size):
    assert replay_buffer.size < desired_size
    agent = Agent.create_for_env(env, policy=make_random_policy_for_env(env),
                                 post_transition_callback=add_replay_buffer_post_step(replay_buffer, env=env))
    longest = env.max_steps
    mdp_id = 0
    while replay_buffer.size < desired_size:
        before = replay_buffer.size
        limit = desired_size - replay_buffer.size - 1
        if longest is not None:
            limit = min(longest, limit)
        run_episode(env=env, agent=agent, mdp_id=mdp_id, max_steps=limit)
        mdp_id += 1
        if replay_buffer.size - before <= 0:
            break


def stream(self, ctor):
    mdp_id = 0
    total_steps = 0
    while self._num_episodes is None or mdp_id < self._num_episodes:
        seen = self._env.reset()
        mask = self._env.possible_actions_mask
        over = False
        t = 0
        while not over:
            action, log_prob = self._agent.act(seen, mask)
            after, reward, over, _info = self._env.step(action)
            mask_after = self._env.possible_actions_mask
            if self._max_steps is not None and t >= self._max_steps:
                over = True
            made = Transition(mdp_id=mdp_id, sequence_number=t, observation=seen, action=action, reward=float(reward), terminal=bool(over),
                              log_prob=log_prob, possible_actions_mask=mask)
            self._replay_buffer_inserter(self._replay_buffer, made)
            if total_steps % self._training_frequency == 0 and self._replay_buffer.size >= self._batch_size:
                batch = self._replay_buffer.sample_transition_batch(batch_size=self._batch_size)
                if self._trainer_preprocessor:
                    batch = self._trainer_preprocessor(batch)
                yield batch
            seen = after
            mask = mask_after
            t += 1
            total_steps += 1
        mdp_id += 1


def stream_for(self, trainer, env, agent, replay_buffer, batch_size, training_frequency, num_episodes, max_steps, trainer_preprocessor,
               replay_buffer_inserter, device):
    device = device or torch.device("cpu")
    prepare = make_replay_buffer_trainer_preprocessor(trainer, device, env) if trainer_preprocessor is None else trainer_preprocessor
    inserter = make_replay_buffer_inserter(env) if replay_buffer_inserter is None else replay_buffer_inserter
    return self(env=env, agent=agent, replay_buffer=replay_buffer, batch_size=batch_size, training_frequency=training_frequency,
                num_episodes=num_episodes, max_steps=max_steps, trainer_preprocessor=prepare, replay_buffer_inserter=inserter)


def stream_init(self, ctor):
    self._env = ctor.env
    self._agent = ctor.agent
    self._replay_buffer = ctor.replay_buffer
    self._batch_size = ctor.batch_size
    self._training_frequency = ctor.training_frequency
    self._num_episodes = ctor.num_episodes
    self._max_steps = ctor.max_steps
    self._trainer_preprocessor = ctor.trainer_preprocessor
    self._replay_buffer_inserter = ctor.replay_buffer_inserter
    return self
