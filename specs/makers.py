"""Reference definitions: replay samples and trajectories as training batches, transitions as replay entries."""
import inspect

import gym
import numpy as np
import reagent.types as rlt
import torch
import torch.nn.functional as F
from reagent.gym.preprocessors.replay_buffer_inserters import BasicReplayBufferInserter, RecSimReplayBufferInserter
from reagent.gym.preprocessors.trainer_preprocessor import ONLINE_MAKER_MAP, REPLAY_BUFFER_MAKER_MAP, make_trainer_preprocessor
from reagent.preprocessing.types import InputColumn
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE


def preprocessor(trainer, device, env, maker_map):
    step = trainer.train_step_gen if isinstance(trainer, ReAgentLightningModule) else trainer.train
    kind = inspect.signature(step).parameters["training_batch"].annotation
    maker = maker_map[kind].create_for_env(env)

    def prepare(batch):
        return maker(batch).to(device)

    return prepare


def online(trainer, device, env):
    return make_trainer_preprocessor(trainer, device, env, ONLINE_MAKER_MAP)


def from_replay(trainer, device, env):
    return make_trainer_preprocessor(trainer, device, env, REPLAY_BUFFER_MAKER_MAP)


def rescaled(x, new_min, new_max, prev_min, prev_max):
    return (x - prev_min) / (prev_max - prev_min) * (new_max - new_min) + new_min


def one_hot(num_actions, action, next_action, terminal):
    now = F.one_hot(action, num_actions).squeeze(1).float()
    later = torch.zeros_like(now)
    alive = (terminal == 0).squeeze(1)
    later[alive] = F.one_hot(next_action[alive], num_actions).squeeze(1).float()
    return now, later


def logged(batch):
    return rlt.ExtraData(action_probability=batch.log_prob.exp())


def dqn_init(self, ctor):
    self.num_actions = ctor.num_actions
    self.trainer_preprocessor = ctor.trainer_preprocessor
    return self


def dqn_for_env(self, env):
    try:
        return self(num_actions=env.action_space.n, trainer_preprocessor=env.trainer_preprocessor)
    except AttributeError:
        return self(num_actions=env.action_space.n)


def dqn(self, ctor, batch):
    now, later = one_hot(self.num_actions, batch.action, batch.next_action, batch.terminal)
    if self.trainer_preprocessor is None:
        state = rlt.FeatureData(float_features=batch.state)
        next_state = rlt.FeatureData(float_features=batch.next_state)
    else:
        state = self.trainer_preprocessor(batch.state)
        next_state = self.trainer_preprocessor(batch.next_state)
    try:
        mask = batch.possible_actions_mask.float()
    except AttributeError:
        mask = torch.ones_like(now).float()
    try:
        next_mask = batch.next_possible_actions_mask.float()
    except AttributeError:
        next_mask = torch.ones_like(later).float()
    return rlt.DiscreteDqnInput(state=state, action=now, next_state=next_state, next_action=later, possible_actions_mask=mask,
                                possible_next_actions_mask=next_mask, reward=batch.reward, not_terminal=1.0 - batch.terminal.float(),
                                step=None, time_diff=None, extras=logged(batch))


def policy_init(self, ctor):
    self.action_low = torch.tensor(ctor.action_low)
    self.action_high = torch.tensor(ctor.action_high)
    self.train_low = torch.tensor(CONTINUOUS_TRAINING_ACTION_RANGE[0])
    self.train_high = torch.tensor(CONTINUOUS_TRAINING_ACTION_RANGE[1])
    return self


def box_for_env(self, env):
    return self(env.action_space.low, env.action_space.high)


def policy(self, ctor, batch):
    now = rescaled(batch.action, self.train_low, self.train_high, self.action_low, self.action_high)
    alive = (batch.terminal == 0).squeeze(1)
    later = torch.zeros_like(now)
    later[alive] = rescaled(batch.next_action[alive], self.train_low, self.train_high, self.action_low, self.action_high)
    d = {
        InputColumn.STATE_FEATURES: batch.state,
        InputColumn.NEXT_STATE_FEATURES: batch.next_state,
        InputColumn.ACTION: now,
        InputColumn.NEXT_ACTION: later,
        InputColumn.REWARD: batch.reward,
        InputColumn.NOT_TERMINAL: 1.0 - batch.terminal.float(),
        InputColumn.STEP: None,
        InputColumn.TIME_DIFF: None,
        InputColumn.EXTRAS: logged(batch),
    }
    docs = False
    try:
        d.update({InputColumn.CANDIDATE_FEATURES: batch.doc, InputColumn.NEXT_CANDIDATE_FEATURES: batch.next_doc})
        docs = True
    except AttributeError:
        pass
    out = rlt.PolicyNetworkInput.from_dict(d)
    if docs:
        out.state = rlt._embed_states(out.state)
        out.next_state = rlt._embed_states(out.next_state)
    return out


def watch_time(self, ctor):
    self.metric = "watch_time"
    return self


def plain(self, env):
    return self()


def slate_q(self, ctor, batch):
    n = batch.state.shape[0]
    # one more action (nothing selected), of reward zero, which is the one taken when nothing was clicked
    nothing = torch.tensor([batch.action.shape[1]] * n).view(n, 1)
    clicks = batch.response_click
    d = {
        "state_features": batch.state,
        "next_state_features": batch.next_state,
        "candidate_features": batch.doc,
        "next_candidate_features": batch.next_doc,
        "item_mask": torch.ones(batch.doc.shape[:2]),
        "next_item_mask": torch.ones(batch.doc.shape[:2]),
        "item_probability": batch.augmentation_value,
        "next_item_probability": batch.next_augmentation_value,
        "action": torch.cat([batch.action, nothing], dim=1),
        "next_action": torch.cat([batch.next_action, nothing], dim=1),
        "position_reward": torch.cat([getattr(batch, "response_" + self.metric), torch.zeros((n, 1))], dim=1),
        "reward_mask": torch.cat([clicks.to(torch.bool), (clicks.sum(dim=1) == 0).view(n, 1)], dim=1),
        "time_diff": None,
        "not_terminal": ~batch.terminal,
    }
    return rlt.SlateQInput.from_dict(d)


def counted(self, ctor):
    self.num_actions = ctor.num_actions
    return self


def memory_for_env(self, env):
    space = env.action_space
    if isinstance(space, gym.spaces.Discrete):
        return self(space.n)
    if isinstance(space, gym.spaces.Box):
        return self()
    raise NotImplementedError()


def vectors_first(x):
    return (x.unsqueeze(2) if len(x.shape) == 2 else x).permute([2, 0, 1])


def scalars_first(x):
    return (x.unsqueeze(1) if len(x.shape) == 1 else x).transpose(0, 1)


def memory(self, ctor, batch):
    action = batch.action
    if self.num_actions is not None:
        action = F.one_hot(batch.action, self.num_actions).float().transpose(1, 2)
    reward = scalars_first(batch.reward)
    alive = scalars_first(1.0 - batch.terminal.float())
    if reward.shape[0] > 1:
        padded = torch.ones_like(reward)
        padded[-1] = alive
        alive = padded
    return rlt.MemoryNetworkInput(
        state=rlt.FeatureData(float_features=vectors_first(batch.state)), next_state=rlt.FeatureData(float_features=vectors_first(batch.next_state)),
        action=vectors_first(action), reward=reward, not_terminal=alive, step=None, time_diff=None)


def tiled_actions(batch_size, num_actions):
    return rlt.FeatureData(float_features=torch.eye(num_actions).repeat(repeats=(batch_size, 1)))


def discrete_for_env(self, env):
    return self(env.action_space.n)


def parametric(self, ctor, batch):
    now, later = one_hot(self.num_actions, batch.action, batch.next_action, batch.terminal)
    every = tiled_actions(batch.state.shape[0], self.num_actions)
    mask = torch.ones((batch.state.shape[0], self.num_actions))
    return rlt.ParametricDqnInput(
        state=rlt.FeatureData(float_features=batch.state), action=rlt.FeatureData(float_features=now),
        next_state=rlt.FeatureData(float_features=batch.next_state), next_action=rlt.FeatureData(float_features=later), possible_actions=every,
        possible_actions_mask=mask, possible_next_actions=every, possible_next_actions_mask=mask, reward=batch.reward,
        not_terminal=1.0 - batch.terminal.float(), step=None, time_diff=None, extras=logged(batch))


def gradient_init(self, ctor):
    self.num_actions = ctor.num_actions
    self.recsim_obs = ctor.recsim_obs
    return self


def gradient_for_env(self, env):
    space = env.action_space
    if isinstance(space, gym.spaces.Discrete):
        return self(space.n)
    if isinstance(space, gym.spaces.Box):
        return self()
    if isinstance(space, gym.spaces.MultiDiscrete):
        return self(recsim_obs=True)
    raise NotImplementedError()


def recsim_state(self, ctor, observation):
    docs = [np.stack(np.array(list(x["doc"].values()))) for x in observation]
    return rlt.FeatureData(float_features=torch.from_numpy(np.stack(np.array([x["user"] for x in observation]))),
                           candidate_docs=rlt.DocList(float_features=torch.from_numpy(np.stack(np.array(docs)))))


def gradient(self, ctor, trajectory):
    action = torch.from_numpy(np.stack(trajectory.action).squeeze())
    if self.num_actions is not None:
        action = F.one_hot(action, self.num_actions).float()
    if self.recsim_obs:
        state = self._get_recsim_state(trajectory.observation)
    else:
        state = rlt.FeatureData(torch.from_numpy(np.stack(trajectory.observation)).float())
    return rlt.PolicyGradientInput(state=state, action=action, reward=torch.tensor(trajectory.reward), log_prob=torch.tensor(trajectory.log_prob))


def basic(self, ctor, replay_buffer, transition):
    replay_buffer.add(**transition.asdict())


def inserter_init(self, ctor):
    self.num_docs = ctor.num_docs
    self.num_responses = ctor.num_responses
    self.discrete_keys = ctor.discrete_keys
    self.box_keys = ctor.box_keys
    self.response_discrete_keys = ctor.response_discrete_keys
    self.response_box_keys = ctor.response_box_keys
    self.augmentation_discrete_keys = ctor.augmentation_discrete_keys
    self.augmentation_box_keys = ctor.augmentation_box_keys
    return self


def flat_keys(spaces):
    discrete = []
    box = []
    for k, v in spaces.items():
        if isinstance(v, gym.spaces.Discrete):
            if v.n > 0:
                discrete.append(k)
        elif isinstance(v, gym.spaces.Box):
            if len(v.shape) <= 1:
                box.append(k)
            else:
                raise NotImplementedError()
        else:
            raise NotImplementedError()
    return discrete, box


def inserter_for_env(self, env):
    space = env.observation_space
    if not isinstance(space["user"], gym.spaces.Box):
        raise NotImplementedError()
    docs = space["doc"]
    if not isinstance(docs, gym.spaces.Dict):
        raise NotImplementedError()
    first = docs[next(iter(docs.spaces))]
    discrete = []
    box = []
    if isinstance(first, gym.spaces.Dict):
        discrete, box = flat_keys(first.spaces)
    elif not isinstance(first, gym.spaces.Box):
        raise NotImplementedError()
    aug_discrete = []
    aug_box = []
    extra = space.spaces.get("augmentation", None)
    if extra is not None:
        aug_discrete, aug_box = flat_keys(list(extra.spaces.values())[0].spaces)
    response_box = []
    response_discrete = []
    for k, v in space["response"][0].spaces.items():
        if isinstance(v, gym.spaces.Discrete):
            response_discrete.append((k, v.n))
        elif isinstance(v, gym.spaces.Box):
            response_box.append((k, v.shape))
        else:
            raise NotImplementedError()
    return self(num_docs=len(docs.spaces), num_responses=len(space["response"]), discrete_keys=discrete, box_keys=box,
                response_box_keys=response_box, response_discrete_keys=response_discrete, augmentation_box_keys=aug_box,
                augmentation_discrete_keys=aug_discrete)


def insert(self, ctor, replay_buffer, transition):
    entry = transition.asdict()
    obs = entry.pop("observation")
    more = {}
    if self.box_keys or self.discrete_keys:
        for k in self.box_keys:
            more["doc_" + k] = np.stack([v[k] for v in obs["doc"].values()])
        for k in self.discrete_keys:
            more["doc_" + k] = np.array([v[k] for v in obs["doc"].values()])
    else:
        more["doc"] = np.stack(list(obs["doc"].values()))
    if self.augmentation_box_keys or self.augmentation_discrete_keys:
        for k in self.augmentation_box_keys:
            more["augmentation_" + k] = np.stack([v[k] for v in obs["augmentation"].values()])
        for k in self.augmentation_discrete_keys:
            more["augmentation_" + k] = np.array([v[k] for v in obs["augmentation"].values()])
    given = obs["response"]
    for k, d in self.response_box_keys:
        more["response_" + k] = np.zeros((self.num_responses, *d), dtype=np.float32) if given is None else np.stack([v[k] for v in given])
    for k, _n in self.response_discrete_keys:
        more["response_" + k] = np.zeros((self.num_responses,), dtype=np.int64) if given is None else np.array([v[k] for v in given])
    entry.update(more)
    replay_buffer.add(observation=obs["user"], **entry)


def chosen_inserter(env):
    from recsim.simulator.recsim_gym import RecSimGymEnv

    if isinstance(env.unwrapped, RecSimGymEnv):
        return RecSimReplayBufferInserter.create_for_env(env)
    return BasicReplayBufferInserter()
