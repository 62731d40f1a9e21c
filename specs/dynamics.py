"""Reference definitions: the bundled simulated environments."""
import itertools
import random
from collections import OrderedDict, defaultdict, deque

import gym
import numpy as np
import torch
from gym.spaces import Box, Discrete
from gym.utils import seeding
from gym.wrappers.time_limit import TimeLimit
from reagent import types as rlt
from reagent.gym.envs.changing_arms import ChangingArmsEnv
from reagent.gym.envs.pomdp.pocman import Ghost, InternalState, PocManEnv, Position, select_maze
from reagent.gym.envs.functionality.possible_actions_mask_tester import _get_state
from reagent.gym.envs.oracle_pvm import make_default_score_fn
from reagent.gym.envs.toy_vm import Document, ToyVMEnv, zero_augment
from reagent.gym.envs.wrappers.recsim import ValueWrapper
from reagent.gym.preprocessors.default_preprocessors import RecsimObsPreprocessor
from reagent.parameters import NormalizationData, NormalizationKey
from reagent.test.base.utils import only_continuous_normalizer
from scipy import stats
from scipy.special import expit, logit


# linear dynamics: x' = A x + B u, reward -(x'Qx + u'Ru), four steps ---------------------

def linear_init(self, ctor):
    self.max_steps, self.state_dim, self.action_dim = 4, 3, 2
    self.action_space = Box(low=-3, high=3, shape=(2,))
    self.observation_space = Box(low=-1.7976931348623157e308, high=1.7976931348623157e308, shape=(3,))
    self.A = 0.2 * np.array([[-1.0, -1.0, 1.0], [2.0, 0.0, 2.0], [0.0, -1.0, 2.0]])
    self.B = 0.2 * np.array([[2.0, 2.0], [2.0, 2.0], [0.0, 1.0]])
    self.Q = 0.2 * np.array([[1.0, 0.0, 0.0], [0.0, 2.0, 0.5], [0.0, 0.5, 1.0]])
    self.R = 0.2 * np.array([[1.0, -1.0], [-1.0, 2.0]])
    return self


def definite(x):
    return np.all(np.linalg.eigvals(x) > 0)


def linear_reset(self, ctor):
    self.state = np.random.randint(low=-1, high=2, size=(self.state_dim,)).astype(float)
    self.step_cnt = 0
    return self.state


def linear_step(self, ctor, action):
    u = np.clip(action, self.action_space.low, self.action_space.high).reshape((self.action_dim, 1))
    x = self.state.reshape((self.state_dim, 1))
    cost = (x.T.dot(self.Q).dot(x) + u.T.dot(self.R).dot(u)).squeeze()
    self.state = (self.A.dot(x) + self.B.dot(u)).squeeze()
    self.step_cnt = self.step_cnt + 1
    return self.state, -cost, self.step_cnt >= self.max_steps, None


# possible-actions-mask tester ----------------------------------------------------------

def tester_init(self, ctor):
    self.max_steps, self.action_num, self.cur_step = 20, 4, -1
    self.observation_space = Box(0.0, 1.0, shape=(20,))
    self.action_space = Discrete(n=4)
    return self


def tester_mask(self, ctor):
    self.legal_action = np.random.randint(self.action_num)
    self.possible_actions_mask = np.zeros(self.action_num, dtype=bool)
    self.possible_actions_mask[self.legal_action] = True


def tester_state(step_idx, max_steps):
    out = np.zeros(max_steps, dtype=np.float32)
    if step_idx != max_steps:
        out[step_idx] = 1.0
    return out


def tester_reset(self, ctor):
    self.cur_step = 0
    self._update_possible_actions_mask()
    return self._get_state()


def tester_step(self, ctor, action):
    reward = 10.0 if action == self.legal_action else 0.0
    last = self.cur_step == self.max_steps - 1
    self.cur_step = self.cur_step + 1
    self._update_possible_actions_mask()
    return self._get_state(), reward, last, None


# changing arms -------------------------------------------------------------------------

def arms_init(self, ctor):
    self.seed(0)
    self.num_arms = ctor.num_arms
    self.max_steps = 49
    return self


def arms_mus(num_arms):
    return torch.tensor([100.0] * num_arms)


def arms_changes(num_arms):
    return torch.tensor([-10.0] * num_arms)


def arms_legal(num_arms):
    return torch.bernoulli(torch.tensor([0.95, 1.0, 0.95, 0.8, 0.8])).to(torch.uint8)


def arms_step(self, ctor, action):
    if isinstance(action, np.ndarray):
        action = action.item()
    limit = self.num_steps >= self.max_steps
    self.num_steps = self.num_steps + 1
    if action == self.num_arms:
        return self.state, -500.0, limit, None
    if action not in self.legal_indices:
        return self.state, -1000.0, True, None
    before = self.mus[action].item()
    self.mus[action] = before + self.mu_changes[action]
    if self.mus[action] <= 0.0:
        self.legal_indices_mask[action] = 0
    reward = before - self.mus[action].item()
    return self.state, reward, limit, None


def arms_reset(self, ctor):
    self.num_steps = 0
    self.mus = torch.tensor([100.0] * self.num_arms)
    self.legal_indices_mask = torch.tensor([1] * self.num_arms).to(torch.uint8)
    return self.state


def arms_state(self, ctor):
    self.mu_changes = torch.tensor([-10.0] * self.num_arms)
    drawn = torch.bernoulli(torch.tensor([0.95, 1.0, 0.95, 0.8, 0.8])).to(torch.uint8) & self.legal_indices_mask
    self.legal_indices = drawn.nonzero(as_tuple=True)[0]
    return torch.stack([self.mus, drawn, self.mu_changes]).numpy()


def arms_space(self, ctor):
    return gym.spaces.Box(-1000.0, 1000.0, shape=(3, self.num_arms))


def arms_actions(self, ctor):
    return gym.spaces.Discrete(self.num_arms + 1)


def arms_norm(self, ctor):
    return {NormalizationKey.STATE: NormalizationData(dense_normalization_parameters=only_continuous_normalizer(list(range(self.num_arms)), 0.0, 1000.0))}


def arms_make(self, ctor):
    return ChangingArmsEnv(self.num_arms)


# seeds ---------------------------------------------------------------------------------

def arms_seed(self, ctor, seed):
    random.seed(seed)
    torch.manual_seed(seed)


def string_seed(self, ctor, seed):
    np.random.seed(seed)
    torch.manual_seed(seed)


def pocman_seed(self, ctor, seed):
    np.random.seed(seed)


def embed_seed(self, ctor, seed):
    self.env.seed(seed)


# string games --------------------------------------------------------------------------

def string_init(self, ctor):
    np.random.seed(123)
    torch.manual_seed(123)
    self.max_steps = ctor.max_steps
    self.action_space = Discrete(2)
    self.observation_space = Box(low=0, high=1, shape=(2,))
    self.reward_map = {}
    string_rewards(self, ctor)
    self.recent_actions = deque([], maxlen=3)
    self.recent_states = deque([], maxlen=3)
    self.step_cnt = 0
    self.done = False
    self.cur_state = np.zeros(2)
    return self


def string_rewards(self, ctor):
    for n in range(1, 4):
        for chars in itertools.product(["A", "B"], repeat=n):
            self.reward_map["".join(chars)] = 0
    self.reward_map["ABB"] = 5
    self.reward_map["BBB"] = -5


def string_reward(self, ctor):
    string = "".join([["A", "B"][c] for c in list(self.recent_actions)])
    return self.reward_map[string], string


def string_step(self, ctor, action):
    self.step_cnt = self.step_cnt + 1
    self.recent_states.append(self.cur_state)
    self.recent_actions.append(action)
    reward, info = self.get_reward()
    if self.step_cnt >= self.max_steps:
        self.done = True
    self.cur_state = self.get_observation()
    return self.cur_state, reward, self.done, {"reward_str": info}


def string_obs(self, ctor):
    out = np.zeros(2)
    if len(self.recent_actions) > 0:
        out[self.recent_actions[-1]] = 1
    return out


def string_reset(self, ctor):
    self.done = False
    self.recent_states = deque([], maxlen=3)
    self.recent_actions = deque([], maxlen=3)
    self.step_cnt = 0
    self.cur_state = self.get_observation()
    return self.cur_state


def game_init(self, ctor):
    np.random.seed(123)
    torch.manual_seed(123)
    self.max_steps = ctor.max_steps
    self.action_space = Discrete(2)
    self.observation_space = Box(low=0, high=1, shape=(2,))
    self.reward_map = defaultdict(float)
    self.terminal_probs = defaultdict(float)
    game_rewards(self, ctor)
    self.recent_actions = deque([], maxlen=3)
    self.step_cnt = 0
    self.done = False
    return self


def game_rewards(self, ctor):
    self.reward_map["AAA"] = 5.0
    self.reward_map["BA"] = 4.0
    self.terminal_probs["A"] = 0.5
    self.terminal_probs["B"] = 0.1


def game_reward(self, ctor):
    string = "".join([["A", "B"][c] for c in list(self.recent_actions)])
    return (self.reward_map[string] if self.done else 0), string


def game_step(self, ctor, action):
    self.step_cnt = self.step_cnt + 1
    self.recent_actions.append(action)
    self.done = True if self.step_cnt >= self.max_steps else self.sample_terminal(action)
    reward, info = self.get_reward()
    return self.get_observation(), reward, self.done, {"reward_str": info}


def game_ends(self, ctor, action):
    return np.random.rand() < self.terminal_probs[["A", "B"][action]]


def game_reset(self, ctor):
    self.done = False
    self.recent_actions = deque([], maxlen=3)
    self.step_cnt = 0
    return self.get_observation()


# pocman --------------------------------------------------------------------------------

def distance(c1, c2):
    return np.sqrt((c1.x - c2.x) ** 2 + (c1.y - c2.y) ** 2)


def opposite(d):
    if d == 0:
        return 2
    if d == 1:
        return 3
    if d == 2:
        return 0
    if d == 3:
        return 1


def same_place(self, other):
    return isinstance(other, Position) and other.x == self.x and other.y == self.y


def ghost_init(self, ctor):
    self.env, self.pos, self.direction, self.ghost_range = ctor.env, ctor.pos, ctor.direction, ctor.ghost_range
    self.move_type = "init"
    return self


def ghost_move(self, ctor, agent_pos, agent_in_power):
    near = distance(agent_pos, self.pos) < self.ghost_range
    if near and agent_in_power > 0:
        self.move_type = "defensive"
        self._move_defensive(agent_pos)
    elif near:
        self.move_type = "aggressive"
        self._move_aggressive(agent_pos)
    else:
        self.move_type = "random"
        self._move_random()


def ghost_random(self, ctor):
    options = set()
    for a in [0, 1, 2, 3]:
        if self.pos != self.env.next_pos(self.pos, a):
            options.add(a)
    if opposite(self.direction) in options and len(options) > 1:
        options.remove(opposite(self.direction))
    d = np.random.choice(list(options))
    self.pos, self.direction = self.env.next_pos(self.pos, d), d


def ghost_chase(self, ctor, agent_pos):
    best, where, way = self.max_x + self.max_y, self.pos, -1
    for a in [0, 1, 2, 3]:
        p = self.env.next_pos(self.pos, a)
        if p == self.pos:
            continue
        d = distance(p, agent_pos)
        if d <= best:
            best, where, way = d, p, a
    self.pos, self.direction = where, way


def ghost_flee(self, ctor, agent_pos):
    best, where, way = 0, self.pos, -1
    for a in [0, 1, 2, 3]:
        p = self.env.next_pos(self.pos, a)
        if p == self.pos:
            continue
        d = distance(p, agent_pos)
        if d >= best:
            best, where, way = d, p, a
    self.pos, self.direction = where, way


def ghost_home(self, ctor):
    self.pos = self.home
    self.direction = PocManEnv.random_action()
    self.move_type = "init"


def state_init(self, ctor):
    self.agent_pos, self.ghosts, self.food_pos, self.power_duration = None, [], [], 0
    return self


def free(self, ctor, pos):
    return self.maze[pos.x, pos.y] != 0


def inside(self, ctor, pos):
    return 0 <= pos.x and pos.x < self.maze.shape[0] and 0 <= pos.y and pos.y < self.maze.shape[1]


def next_place(self, ctor, pos, action):
    dx, dy = 0, 0
    if action == 0:
        dx = -1
    elif action == 2:
        dx = 1
    elif action == 1:
        dy = 1
    elif action == 3:
        dy = -1
    p = Position(pos.x + dx, pos.y + dy)
    return p if self._inside(p) and self._passable(p) else pos


def pocman_step(self, ctor, action):
    self.step_cnt = self.step_cnt + 1
    s = self.internal_state
    reward = -1
    s.agent_pos = self.next_pos(s.agent_pos, action)
    if s.power_duration > 0:
        s.power_duration = s.power_duration - 1
    powered = s.power_duration > 0
    hit = set()
    for g, ghost in enumerate(s.ghosts):
        if ghost.pos == s.agent_pos:
            hit.add(g)
        else:
            ghost.move(s.agent_pos, powered)
            if ghost.pos == s.agent_pos:
                hit.add(g)
    for g in list(hit):
        if s.power_duration > 0:
            reward = reward + 25
            s.ghosts[g].reset()
        else:
            reward = reward - 100
            self.done = True
            break
    if self.step_cnt > self.board["_max_step"]:
        self.done = True
    if self._agent_at_food():
        reward = reward + 10
        self.maze[s.agent_pos.x, s.agent_pos.y] = 1
        if self._food_left() == 0:
            self.done = True
    if self._agent_at_power():
        s.power_duration = self.board["_power_duration"]
        self.maze[s.agent_pos.x, s.agent_pos.y] = 1
        reward = reward + 10
    return self._make_ob(), reward, self.done, {"state": s}


def at_food(self, ctor):
    p = self.internal_state.agent_pos
    return self.maze[p.x, p.y] == 3


def at_power(self, ctor):
    p = self.internal_state.agent_pos
    return self.maze[p.x, p.y] == 2


def pocman_obs(self, ctor):
    out = np.zeros(10)
    for i, a in enumerate([0, 1, 2, 3]):
        out[i] = self._see_ghost(a)
        if self.next_pos(self.internal_state.agent_pos, a) == self.internal_state.agent_pos:
            out[i + 4] = 1
    if self._hear_ghost():
        out[8] = 1
    if self._smell_food():
        out[9] = 1
    return out


def sees(self, ctor, action):
    seen = []
    me = self.internal_state.agent_pos
    for ghost in self.internal_state.ghosts:
        g = ghost.pos
        if me.x != g.x and me.y != g.y:
            continue
        if me == g:
            seen.append(0)
            break
        ahead = (
            (action == 0 and g.x < me.x and g.y == me.y)
            or (action == 2 and g.x > me.x and g.y == me.y)
            or (action == 3 and g.y < me.y and g.x == me.x)
            or (action == 1 and g.y > me.y and g.x == me.x)
        )
        if ahead and not self._wall_between(me, g):
            seen.append(distance(me, g))
    return 1 if seen else -1


def smells(self, ctor):
    r = self.board["_smell_range"]
    me = self.internal_state.agent_pos
    for x in range(-r, r + 1):
        for y in range(-r, r + 1):
            px, py = me.x + x, me.y + y
            if 0 <= px and px < self.maze.shape[0] and 0 <= py and py < self.maze.shape[1] and self.maze[px, py] == 3:
                return True
    return False


def hears(self, ctor):
    for ghost in self.internal_state.ghosts:
        if distance(ghost.pos, self.internal_state.agent_pos) <= self.board["_hear_range"]:
            return True
    return False


def walled(self, ctor, pos1, pos2):
    if pos1 == pos2:
        return False
    if pos1.y == pos2.y:
        for i in range(min(pos1.x, pos2.x) + 1, max(pos1.x, pos2.x)):
            if self.maze[i, pos1.y] == 0:
                return True
    elif pos1.x == pos2.x:
        for i in range(min(pos1.y, pos2.y), max(pos1.y, pos2.y)):
            if self.maze[pos1.x, i] == 0:
                return True
    return False


def food_left(self, ctor):
    return np.sum(self.maze == 3)


def pocman_reset(self, ctor):
    self.done = False
    self.step_cnt = 0
    self._get_init_state()
    return self._make_ob()


def pocman_fresh(self, ctor):
    self.maze = self.board["_maze"].copy()
    s = InternalState()
    self.internal_state = s
    s.agent_pos = Position(*self.board["_poc_home"])
    Ghost.max_x = self.maze.shape[0]
    Ghost.max_y = self.maze.shape[1]
    home = Position(*self.board["_ghost_home"])
    Ghost.home = home
    for _ in range(self.board["_num_ghosts"]):
        s.ghosts.append(Ghost(self, Position(home.x, home.y), direction=self.random_action(), ghost_range=self.board["_ghost_range"]))
    return s


# oracle ranking --------------------------------------------------------------------------

def oracle_reset(self, ctor):
    obs = super().reset()
    self.prev_obs = obs
    obs.update({
        "user": np.random.rand(self.user_feat_dim),
        "doc": OrderedDict([(str(i), np.random.rand(self.candidate_feat_dim)) for i in range(self.num_candidates)]),
    })
    return obs


def oracle_step(self, ctor, action):
    scores = self._get_scores(self.prev_obs["user"], self.prev_obs["doc"])
    truth = self._get_ranking(scores, self.ground_truth_weights)
    chosen = self._get_ranking(scores, action)
    if (truth == chosen).sum() == self.slate_size:
        reward = 3.0
    else:
        reward = stats.kendalltau(truth, chosen)[0]
    return self.prev_obs, reward, True, None


def oracle_match(self, ctor, reward):
    return reward > 3.0 - 1e-6


def oracle_space(self, ctor):
    return gym.spaces.Box(low=-1.0, high=1.0, shape=(self.num_weights,))


def oracle_scores(self, ctor, user, docs):
    return np.array([[fn(user, doc) for fn in self.score_fns] for _, doc in docs.items()])


def oracle_ranking(self, ctor, scores, weights):
    return np.argsort(-(scores * weights).sum(axis=1))[: self.slate_size]


def oracle_obs(self, ctor, obs):
    return rlt._embed_states(RecsimObsPreprocessor.create_from_env(self)(obs))


def oracle_served(self, ctor, obs):
    x = RecsimObsPreprocessor.create_from_env(self)(obs)
    user = x.float_features.unsqueeze(1).repeat_interleave(self.num_candidates, dim=1)
    both = torch.cat([user, x.candidate_docs.float_features], dim=2).squeeze(0)
    return (both, torch.ones_like(both, dtype=torch.uint8))


def oracle_weights(num_weights):
    return np.array([1] * num_weights)


# toy value model ---------------------------------------------------------------------------

def toy_reward(slate, prng):
    total, at, n = 0, 0, len(slate)
    if not n:
        return 0
    done = slate[at].tap < prng.rand()
    while not done:
        total += slate[at].quality
        stay = 1 - slate[at].abandon
        roll = prng.rand()
        at += 1
        done = (stay < roll) or (at >= n)
    return total


def toy_document(prng):
    p, q, r = prng.rand(), prng.rand(), prng.rand()
    return Document(expit(logit(p) + 1), q, expit(logit(r) - 2))


def toy_init(self, ctor):
    n = ctor.slate_size
    self.slate_size = n
    self.action_space = gym.spaces.MultiDiscrete([n] * n)
    self.observation_space = gym.spaces.Dict({
        "user": gym.spaces.Box(low=0, high=1, shape=(1,)),
        "doc": gym.spaces.Dict({str(k): gym.spaces.Box(low=0, high=1, shape=(n, 3)) for k in range(n)}),
    })
    self.response_space = gym.spaces.Dict({})
    self._doc_sampler = np.random.RandomState()
    self._reward_prng = np.random.RandomState()
    return self


def toy_seed(self, ctor, seed):
    self._doc_sampler, s1 = seeding.np_random(seed)
    self._reward_prng, s2 = seeding.np_random(seeding.hash_seed(s1 + 1) % 2 ** 31)
    return [s1, s2]


def toy_candidates(self, ctor):
    self.candidates = [toy_document(self._doc_sampler) for _ in range(self.slate_size)]
    return {"user": np.zeros((1,)), "doc": {str(k): np.array(self.candidates[k], dtype=np.float32) for k in range(len(self.candidates))}}


def toy_step(self, ctor, action):
    reward = toy_reward([self.candidates[i] for i in action], self._reward_prng)
    obs = self._sample_candidates()
    return obs, reward, False, {"documents": self.candidates}


def toy_reset(self, ctor):
    return self._sample_candidates()


def toy_zero(user, doc):
    return 0.0


def toy_make(self, ctor):
    env = ValueWrapper(TimeLimit(ToyVMEnv(self.slate_size), max_episode_steps=self.max_episode_steps), zero_augment)
    if self.initial_seed is not None:
        env.seed(self.initial_seed)
    return env


def toy_action(self, ctor, out):
    return out.action.squeeze()


def toy_obs(self, ctor, obs):
    return RecsimObsPreprocessor.create_from_env(self)(obs)


# recsim ------------------------------------------------------------------------------------

def clicks(self, ctor, documents):
    responses = [self._response_model_ctor() for _ in documents]
    self.choice_model.score_documents(self._user_state, [d.create_observation() for d in documents])
    chosen = self.choice_model.choose_items()
    for i, response in enumerate(responses):
        response.quality = documents[i].quality
        response.cluster_id = documents[i].cluster_id
    for c in chosen:
        self._generate_click_response(documents[c], responses[c])
    return responses


def score_document(self, ctor, doc_obs):
    return (super().score_document(doc_obs) + 1) / 2


# embedded states -----------------------------------------------------------------------------

def embed_init(self, ctor):
    env = ctor.gym_env
    self.env = env
    self.max_embed_seq_len = ctor.max_embed_seq_len
    self.mdnrnn = ctor.mdnrnn
    self.embed_size = ctor.mdnrnn.num_hiddens
    self.raw_state_dim = env.observation_space.shape[0]
    self.state_dim = ctor.mdnrnn.num_hiddens + env.observation_space.shape[0]
    if isinstance(env.action_space, gym.spaces.Discrete):
        self.is_discrete_action, self.action_dim = True, env.action_space.n
    elif isinstance(env.action_space, gym.spaces.Box):
        self.is_discrete_action, self.action_dim = False, env.action_space.shape[0]
    self.action_space = env.action_space
    low, high = ctor.state_min_value, ctor.state_max_value
    if low is None or high is None:
        low, high = np.min(env.observation_space.low), np.max(env.observation_space.high)
    self.observation_space = Box(low=low, high=high, shape=(ctor.mdnrnn.num_hiddens + env.observation_space.shape[0],))
    self.cur_raw_state = None
    self.recent_states = deque([], maxlen=ctor.max_embed_seq_len)
    self.recent_actions = deque([], maxlen=ctor.max_embed_seq_len)
    return self


def embed(self, ctor, state):
    before = self.mdnrnn.mdnrnn.training
    self.mdnrnn.mdnrnn.eval()
    if len(self.recent_states) == 0:
        s, a = np.zeros((1, self.raw_state_dim)), np.zeros((1, self.action_dim))
    else:
        s, a = np.array(list(self.recent_states)), np.array(list(self.recent_actions))
    out = self.mdnrnn(
        rlt.FeatureData(torch.tensor(s, dtype=torch.float).unsqueeze(1)), rlt.FeatureData(torch.tensor(a, dtype=torch.float).unsqueeze(1))
    )
    self.mdnrnn.mdnrnn.train(before)
    return np.hstack((out.all_steps_lstm_hidden[-1].squeeze().detach().cpu().numpy(), state))


def embed_reset(self, ctor):
    raw = self.env.reset()
    self.recent_states = deque([], maxlen=self.max_embed_seq_len)
    self.recent_actions = deque([], maxlen=self.max_embed_seq_len)
    self.cur_raw_state = raw
    return self.embed_state(raw)


def embed_step(self, ctor, action):
    if self.is_discrete_action:
        a = np.zeros(self.action_dim)
        a[action] = 1.0
    else:
        a = action
    self.recent_states.append(self.cur_raw_state)
    self.recent_actions.append(a)
    raw, reward, terminal, info = self.env.step(action)
    self.cur_raw_state = raw
    return self.embed_state(raw), reward, terminal, info


def boards(maze):
    kind = maze.lower()
    if kind == "micro":
        return dict(
            _maze=np.array([[1, 3, 3, 2, 3, 3], [3, 3, 0, 3, 0, 3], [3, 3, 3, 3, 3, 3], [1, 1, 0, 3, 0, 3], [1, 2, 3, 3, 3, 1]], dtype=np.int8),
            _num_ghosts=2, _ghost_range=3, _ghost_home=(4, 4), _poc_home=(0, 0), _smell_range=1, _hear_range=2, _power_duration=15, _max_step=200)
    if kind == "mini":
        return dict(
            _maze=np.array([[1, 1, 1, 1], [1, 0, 0, 1], [1, 0, 0, 1], [1, 1, 1, 1]], dtype=np.int8),
            _num_ghosts=1, _ghost_range=3, _ghost_home=(3, 3), _poc_home=(0, 0), _smell_range=1, _hear_range=2, _power_duration=15, _max_step=20)
    raise ValueError(maze)


def string_random():
    return np.random.randint(0, 2)


def pocman_random():
    return np.random.randint(0, 4)


def oracle_init(self, ctor):
    super().__post_init_post_parse__()
    self.score_fns = [make_default_score_fn(i) for i in range(self.num_weights)]
    self.ground_truth_weights = np.array([1] * self.num_weights)


def oracle_fns(num_weights):
    return [make_default_score_fn(i) for i in range(num_weights)]


def tester_current(self, ctor):
    return _get_state(self.cur_step, self.max_steps)


def value_init(self, ctor):
    self.value_fn = ctor.value_fn
    return self


def pocman_init(self, ctor):
    self.board = select_maze("micro")
    self._get_init_state()
    self.max_steps = self.board["_max_step"]
    self.action_space = Discrete(4)
    self.observation_space = Box(low=0, high=1, shape=(10,))
    self.step_cnt = 0
    return self


def oracle_fn(fn_i):
    return lambda user, doc: doc[fn_i]
