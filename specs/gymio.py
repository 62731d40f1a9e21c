"""Reference definitions: conversion of observations and actions at the environment boundary."""
import gym
import numpy as np
import reagent.types as rlt
import torch
import torch.nn.functional as F
from gym import spaces
from gym_minigrid.minigrid import DIR_TO_VEC
from gym_minigrid.wrappers import ReseedWrapper
from reagent.gym.envs.wrappers.recsim import ValueWrapper
from reagent.gym.envs.wrappers.simple_minigrid import SimpleObsWrapper
from reagent.gym.preprocessors.default_preprocessors import RecsimObsPreprocessor
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE
from reagent.test.base.utils import discrete_action_normalizer, only_continuous_action_normalizer, only_continuous_normalizer
from recsim import choice_model
from recsim.environments import interest_evolution, interest_exploration
from reagent.parameters import NormalizationData, NormalizationKey
from reagent.gym.envs.recsim import create_multiclick_environment, dot_value_fn, multi_selection_value_fn


def action_sent(self, ctor, out):
    a = out.action
    sp = self.action_space
    if isinstance(sp, spaces.Discrete):
        return a.squeeze(0).argmax()
    elif isinstance(sp, spaces.MultiDiscrete):
        return a.squeeze(0)
    elif isinstance(sp, spaces.Box):
        low, high = torch.tensor(sp.low), torch.tensor(sp.high)
        lo, hi = torch.tensor(CONTINUOUS_TRAINING_ACTION_RANGE[0]), torch.tensor(CONTINUOUS_TRAINING_ACTION_RANGE[1])
        return (a.squeeze(0) - lo) / (hi - lo) * (high - low) + low
    raise NotImplementedError()


def action_served(self, ctor, out):
    a = out.action
    sp = self.action_space
    if isinstance(sp, spaces.Discrete):
        return a.squeeze(0).argmax().view([])
    elif isinstance(sp, spaces.MultiDiscrete):
        return a.squeeze(0)
    elif isinstance(sp, spaces.Box):
        return a.squeeze(0)
    raise NotImplementedError()


def as_numpy(self, ctor):
    def f(out):
        return self.action_extractor(out).cpu().numpy()
    return f


def served_as_numpy(self, ctor):
    def f(out):
        return self.serving_action_extractor(out).cpu().numpy()
    return f


def on_device(self, ctor, *args, **kwargs):
    kwargs["non_blocking"] = True

    def f(obs):
        return self.obs_preprocessor(obs).to(*args, **kwargs)
    return f


def served_obs(self, ctor):
    def f(obs):
        return self.serving_obs_preprocessor(obs)
    return f


def step_limit(self, ctor):
    a = getattr(self.env, "_max_episode_steps", None)
    if a is not None:
        return a
    b = getattr(self.env, "max_steps", None)
    if b is not None:
        return b
    return None


def mask(self, ctor):
    return getattr(self.env, "possible_actions_mask", None)


# plain gym ---------------------------------------------------------------

def gym_make(self, ctor):
    if self.set_max_steps is not None:
        env = gym.make(self.env_name, max_steps=self.set_max_steps)
    else:
        env = gym.make(self.env_name)
    if self.env_name.startswith("MiniGrid-"):
        return SimpleObsWrapper(ReseedWrapper(env))
    return env


def gym_obs(self, ctor, obs):
    if isinstance(self.observation_space, spaces.Box):
        return rlt.FeatureData(torch.tensor(obs).float().unsqueeze(0))
    raise NotImplementedError()


def gym_served(self, ctor, obs):
    sp = self.observation_space
    if not isinstance(sp, spaces.Box):
        raise NotImplementedError()
    if len(sp.shape) != 1:
        raise NotImplementedError()
    x = torch.tensor(obs).float().view(1, sp.shape[0])
    return (x, torch.ones_like(x))


# minigrid ----------------------------------------------------------------

def grid_obs(self, ctor, obs):
    dirs = len(DIR_TO_VEC)
    e = self.env
    out = np.zeros((e.width * e.height * dirs,), dtype=np.float32)
    out[(e.agent_pos[0] * e.height + e.agent_pos[1]) * dirs + e.agent_dir] = 1.0
    return out


def grid_space(self, ctor):
    self.observation_space = spaces.Box(low=0, high=1, shape=(self.env.width * self.env.height * len(DIR_TO_VEC),), dtype="float32")
    return self


# recsim ------------------------------------------------------------------

def value_obs(self, ctor, obs):
    try:
        aug = obs["augmentation"]
    except KeyError:
        aug = {}
        obs["augmentation"] = aug
    for k in obs["doc"]:
        try:
            entry = aug[k]
        except KeyError:
            entry = {}
            aug[k] = entry
        entry["value"] = self.value_fn(obs["user"], obs["doc"][k])
    return obs


def rec_make(self, ctor):
    config = {"slate_size": self.slate_size, "seed": self.initial_seed, "num_candidates": self.num_candidates, "resample_documents": self.resample_documents}
    if self.is_interest_exploration:
        return ValueWrapper(interest_exploration.create_environment(config), lambda user, doc: 0.0)
    if self.single_selection:
        return ValueWrapper(interest_evolution.create_environment(config), dot_value_fn)
    return ValueWrapper(create_multiclick_environment(config), multi_selection_value_fn)


def rec_obs(self, ctor, obs):
    return RecsimObsPreprocessor.create_from_env(self)(obs)


def rec_reset(self, ctor, **kwargs):
    state = self.env.reset(**kwargs)
    state["user"] = np.copy(state["user"])
    return state


def rec_step(self, ctor, action):
    state, reward, terminal, info = self.env.step(action)
    state["user"] = np.copy(state["user"])
    return state, reward, terminal, info


def dot_value(user, doc):
    return np.inner(user, doc)


def half_value(user, doc):
    return (np.inner(user, doc) + 1.0) / 2.0


def rec_layout(self, env):
    sp = env.observation_space
    if not isinstance(sp["user"], spaces.Box):
        raise NotImplementedError()
    docs = sp["doc"]
    if not isinstance(docs, spaces.Dict):
        raise NotImplementedError()
    onehot = []
    dense = []
    first = docs[next(iter(docs.spaces))]
    if isinstance(first, spaces.Dict):
        for k, v in docs[next(iter(docs.spaces))].spaces.items():
            if isinstance(v, spaces.Discrete):
                if v.n > 0:
                    onehot.append((k, v.n))
            elif isinstance(v, spaces.Box):
                if len(v.shape) == 0:
                    dense.append((k, 1))
                elif len(v.shape) == 1:
                    dense.append((k, v.shape[0]))
                else:
                    raise NotImplementedError
            else:
                raise NotImplementedError()
    elif isinstance(first, spaces.Box):
        pass
    else:
        raise NotImplementedError()
    return RecsimObsPreprocessor(num_docs=len(docs.spaces), discrete_keys=sorted(onehot), box_keys=sorted(dense))


def rec_layout_init(self, ctor):
    self.num_docs = ctor.num_docs
    self.discrete_keys = ctor.discrete_keys
    self.box_keys = ctor.box_keys
    return self


def rec_features(self, ctor, obs):
    user = torch.tensor(obs["user"]).float().unsqueeze(0)
    docs = obs["doc"]
    if self.discrete_keys or self.box_keys:
        a = []
        for k, n in self.discrete_keys:
            a.append(F.one_hot(torch.tensor([v[k] for v in docs.values()]), n).float())
        b = []
        for k, d in self.box_keys:
            b.append(torch.tensor(np.vstack([v[k] for v in docs.values()])).float())
        feats = torch.cat(a + b, dim=1).unsqueeze(0)
    else:
        feats = torch.tensor(np.vstack(list(docs.values()))).float().unsqueeze(0)
    value = torch.tensor([v["value"] for v in obs["augmentation"].values()]).float().unsqueeze(0)
    return rlt.FeatureData(float_features=user, candidate_docs=rlt.DocList(float_features=feats, value=value))


# changing arms -----------------------------------------------------------

def arm_obs(self, ctor, obs):
    dense = torch.tensor(obs[0, :]).view(1, self.num_arms)
    legal = torch.tensor(obs[1, :]).nonzero(as_tuple=True)[0].to(torch.long)
    change = torch.tensor(obs[2, :])
    zero = torch.tensor([0], dtype=torch.long)
    return rlt.FeatureData(
        float_features=dense,
        id_list_features={"legal": (zero, legal)},
        id_score_list_features={"mu_changes": (zero, torch.arange(self.num_arms, dtype=torch.long), change)},
    )


def arm_served(self, ctor, obs):
    dense = torch.tensor(obs[0, :]).view(1, self.num_arms)
    legal = torch.tensor(obs[1, :]).nonzero(as_tuple=True)[0].to(torch.long)
    change = torch.tensor(obs[2, :])
    zero = torch.tensor([0], dtype=torch.long)
    return rlt.ServingFeatureData(
        float_features_with_presence=(dense, torch.ones_like(dense, dtype=torch.uint8)),
        id_list_features={100: (zero, legal + 1000000)},
        id_score_list_features={1000: (zero, torch.arange(self.num_arms, dtype=torch.long) + 1500000, change)},
    )


def arm_logged(self, ctor, elem):
    obs = elem.numpy()
    dense = torch.tensor(obs[0, :]).view(1, self.num_arms)
    legal = torch.tensor(obs[1, :]).nonzero(as_tuple=True)[0].to(torch.long)
    change = torch.tensor(obs[2, :])
    return (
        {i: s.item() for i, s in enumerate(dense.view(-1))},
        {100: (legal + 1000000).tolist()},
        {1000: {i + 1500000: s.item() for i, s in enumerate(change)}},
    )


def arm_batch(self, ctor, obs):
    n = obs.shape[0]
    dense = obs[:, 0, :].view(n, self.num_arms)
    rows, legal = obs[:, 1, :].nonzero(as_tuple=True)
    offsets = []
    last = -1
    for i, row in enumerate(rows.tolist()):
        if row > last:
            offsets.extend([i] * (row - last))
            last = row
        else:
            assert row == last
    offsets.extend([len(rows)] * (n - 1 - last))
    return rlt.FeatureData(
        float_features=dense,
        id_list_features={"legal": (torch.tensor(offsets), legal)},
        id_score_list_features={
            "mu_changes": (
                torch.tensor(list(range(0, n * self.num_arms, self.num_arms))),
                torch.arange(self.num_arms).repeat(n),
                obs[:, 2, :].reshape(-1),
            )
        },
    )


# normalizers describing the spaces ----------------------------------------

def state_normalizer(env):
    sp = env.observation_space
    if isinstance(sp, spaces.Box):
        return only_continuous_normalizer(list(range(sp.shape[0])), sp.low, sp.high)
    elif isinstance(sp, spaces.Dict):
        return None
    raise NotImplementedError()


def action_normalizer(env):
    sp = env.action_space
    if isinstance(sp, spaces.Discrete):
        return discrete_action_normalizer(list(range(sp.n)))
    elif isinstance(sp, spaces.Box):
        return only_continuous_action_normalizer(list(range(sp.shape[0])), min_value=sp.low, max_value=sp.high)
    raise NotImplementedError()
