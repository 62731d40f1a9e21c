"""Reference definitions: policies, scorers and samplers for gym environments."""
import gym
import numpy as np
import reagent.types as rlt
import torch
import torch.nn.functional as F
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.predictor_policies import ActorPredictorPolicy, DiscreteDQNPredictorPolicy
from reagent.gym.policies.random_policies import ContinuousRandomPolicy, DiscreteRandomPolicy, MultiDiscreteRandomPolicy
from reagent.gym.policies.samplers.discrete_sampler import GreedyActionSampler, SoftmaxActionSampler
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.gym.policies.scorers.discrete_scorer import (
    apply_possible_actions_mask,
    discrete_dqn_serving_scorer,
    get_parametric_input,
    parametric_dqn_serving_scorer,
)
from reagent.gym.policies.scorers.slate_q_scorer import slate_q_serving_scorer
from reagent.gym.preprocessors.trainer_preprocessor import get_possible_actions_for_gym
from reagent.gym.types import GaussianSamplerScore
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE
from reagent.prediction.predictor_wrapper import ActorPredictorUnwrapper, DiscreteDqnPredictorUnwrapper, ParametricDqnPredictorUnwrapper


# ---- softmax
def softmax_built(self, ctor):
    self.temperature = ctor.temperature


def boltzmann(self, scores):
    return torch.distributions.Categorical(logits=scores / self.temperature)


def softmax_sample(self, ctor, scores):
    m = boltzmann(self, scores)
    drawn = m.sample()
    return rlt.ActorOutput(action=F.one_hot(drawn, scores.shape[1]), log_prob=m.log_prob(drawn).detach())


def softmax_log_prob(self, ctor, scores, action):
    return boltzmann(self, scores).log_prob(action.argmax(dim=1))


def softmax_entropy(self, ctor, scores):
    return boltzmann(self, scores).entropy().mean()


# ---- greedy
def greedy_sample(self, ctor, scores):
    best = scores.argmax(dim=1)
    return rlt.ActorOutput(action=F.one_hot(best, scores.shape[1]), log_prob=torch.zeros_like(best, dtype=torch.float))


def greedy_log_prob(self, ctor, scores, action):
    other = scores.argmax(dim=1) != action.argmax(-1)
    lp = torch.zeros(scores.shape[0]).float()
    lp[other] = -float("inf")
    return lp


# ---- epsilon greedy
def epsilon_built(self, ctor):
    self.epsilon = float(ctor.epsilon)
    self.epsilon_decay = ctor.epsilon_decay
    self.minimum_epsilon = ctor.minimum_epsilon


def epsilon_sample(self, ctor, scores):
    n = scores.shape[1]
    share = self.epsilon / n
    p = torch.full_like(scores, share)
    p[F.one_hot(scores.argmax(dim=1), n).bool()] = 1 - self.epsilon + share
    m = torch.distributions.Categorical(probs=p)
    drawn = m.sample()
    return rlt.ActorOutput(action=F.one_hot(drawn, n), log_prob=m.log_prob(drawn))


def epsilon_log_prob(self, ctor, scores, action):
    n = scores.shape[1]
    p = torch.ones(scores.shape[0]) * self.epsilon / n
    p[scores.argmax(dim=1) == action.argmax(-1)] = 1 - self.epsilon + self.epsilon / n
    return p.log()


def epsilon_update(self, ctor):
    e = self.epsilon * self.epsilon_decay
    if self.minimum_epsilon is not None:
        e = max(e, self.minimum_epsilon)
    self.epsilon = e


# ---- gaussian
def gaussian_draw(self, ctor, loc, scale_log):
    r = torch.randn_like(scale_log, device=scale_log.device)
    action = torch.tanh(loc + r * scale_log.exp())
    lp = self.actor_network._normal_log_prob(r, scale_log) - self.actor_network._squash_correction(action)
    return action, torch.sum(lp, dim=1)


def gaussian_sample(self, ctor, scores):
    self.actor_network.eval()
    action, lp = self._sample_action(scores.loc, scores.scale_log)
    self.actor_network.train()
    return rlt.ActorOutput(action=action.detach(), log_prob=lp.detach())


def gaussian_density(self, ctor, loc, scale_log, squashed_action):
    lp = torch.distributions.Normal(loc, scale_log.exp()).log_prob(torch.atanh(squashed_action))
    return torch.sum(lp - self.actor_network._squash_correction(squashed_action), dim=1)


def gaussian_log_prob(self, ctor, scores, squashed_action):
    self.actor_network.eval()
    lp = self._log_prob(scores.loc, scores.scale_log, squashed_action)
    self.actor_network.train()
    return lp.detach()


def gaussian_built(self, ctor):
    self.actor_network = ctor.actor_network


# ---- top k
def top_k(self, ctor, scores):
    _, best = torch.topk(scores, self.k, dim=1)
    return rlt.ActorOutput(action=best, log_prob=torch.zeros(best.shape[0], 1))


def top_k_built(self, ctor):
    self.k = ctor.k


# ---- scorers
def masked(scores, possible_actions_mask=None, invalid_score=float("-inf")):
    if possible_actions_mask is None:
        return scores
    allowed = torch.tensor(possible_actions_mask, dtype=torch.bool).unsqueeze(0)
    scores[~allowed] = invalid_score
    return scores


def dqn_scorer(q_network):
    def score(obs, mask):
        q_network.eval()
        q = q_network(obs)
        q_network.train()
        if q.dim() == 3:
            q = q.mean(dim=2)
        return apply_possible_actions_mask(q.detach(), mask).detach()

    return score


def dqn_serving_scorer(q_network):
    def score(state, mask):
        _, q = q_network(*state)
        return apply_possible_actions_mask(q.detach(), mask).detach()

    return score


def parametric_input(max_num_actions, obs):
    n = obs.float_features.shape[0]
    acts = get_possible_actions_for_gym(n, max_num_actions).to(obs.float_features.device)
    return obs.get_tiled_batch(max_num_actions), acts


def parametric_scorer(max_num_actions, q_network):
    def score(obs):
        state, acts = get_parametric_input(max_num_actions, obs)
        q_network.eval()
        q = q_network(state, acts)
        q_network.train()
        return q.view(-1, max_num_actions).detach()

    return score


def with_ones(x):
    return (x, torch.ones_like(x))


def parametric_serving_scorer(max_num_actions, q_network):
    def score(value_presence):
        state, acts = get_parametric_input(max_num_actions, rlt.FeatureData(value_presence[0]))
        _, q = q_network(state_with_presence=with_ones(state.float_features), action_with_presence=with_ones(acts.float_features))
        return q.view(-1, max_num_actions).detach()

    return score


def slate_scorer(num_candidates, q_network):
    def score(state):
        tiled = state.repeat_interleave(repeats=num_candidates, axis=0)
        docs = state.candidate_docs
        acts = docs.as_feature_data()
        q_network.eval()
        q = q_network(tiled, acts).view(-1, num_candidates)
        q_network.train()
        return (F.softmax(docs.value, dim=1) * q).detach()

    return score


def slate_serving_scorer(num_candidates, q_network):
    def score(state):
        tiled = state.float_features.repeat_interleave(repeats=num_candidates, axis=0)
        docs = state.candidate_docs
        acts = docs.as_feature_data().float_features
        q_network.eval()
        _, q = q_network(with_ones(tiled), with_ones(acts))
        q_network.train()
        return (F.softmax(docs.value, dim=1) * q.view(-1, num_candidates)).detach()

    return score


def sac_scorer(actor_network):
    def score(obs):
        actor_network.eval()
        loc, scale_log = actor_network._get_loc_and_scale_log(obs)
        actor_network.train()
        return GaussianSamplerScore(loc=loc.detach(), scale_log=scale_log.detach())

    return score


# ---- policies
def policy_built(self, ctor):
    self.scorer = ctor.scorer
    self.sampler = ctor.sampler


def act(self, ctor, obs, possible_actions_mask=None):
    if possible_actions_mask is not None:
        scores = self.scorer(obs, possible_actions_mask)
    else:
        scores = self.scorer(obs)
    return self.sampler.sample_action(scores).cpu().detach()


def predictor_policy(serving_module, **kwargs):
    name = serving_module.original_name
    if name.endswith("DiscreteDqnPredictorWrapper"):
        return DiscreteDQNPredictorPolicy(serving_module, kwargs.get("rl_parameters", None))
    if name.endswith("ActorPredictorWrapper"):
        return ActorPredictorPolicy(predictor=ActorPredictorUnwrapper(serving_module))
    if name.endswith("ParametricDqnPredictorWrapper"):
        n = kwargs.get("max_num_actions", None)
        k = kwargs.get("slate_size", None)
        net = ParametricDqnPredictorUnwrapper(serving_module)
        if k is not None:
            return Policy(scorer=slate_q_serving_scorer(num_candidates=n, q_network=net), sampler=TopKSampler(k=k))
        return Policy(scorer=parametric_dqn_serving_scorer(max_num_actions=n, q_network=net), sampler=GreedyActionSampler())
    raise NotImplementedError


def predictor_dqn_built(self, ctor):
    p = ctor.rl_parameters
    if p and p.softmax_policy:
        self.sampler = SoftmaxActionSampler(temperature=p.temperature)
    else:
        self.sampler = GreedyActionSampler()
    self.scorer = discrete_dqn_serving_scorer(q_network=DiscreteDqnPredictorUnwrapper(ctor.wrapped_dqn_predictor))


def predictor_dqn_act(self, ctor, obs, possible_actions_mask):
    if isinstance(obs, rlt.ServingFeatureData):
        state = obs
    else:
        state = rlt.ServingFeatureData(float_features_with_presence=obs, id_list_features={}, id_score_list_features={})
    return self.sampler.sample_action(self.scorer(state, possible_actions_mask)).cpu().detach().detach()


def predictor_actor_act(self, ctor, obs, possible_actions_mask=None):
    return rlt.ActorOutput(action=self.predictor(obs).cpu().detach())


# ---- random policies
def random_policy(env):
    if isinstance(env.action_space, gym.spaces.Discrete):
        return DiscreteRandomPolicy.create_for_env(env)
    if isinstance(env.action_space, gym.spaces.Box):
        return ContinuousRandomPolicy.create_for_env(env)
    if isinstance(env.action_space, gym.spaces.MultiDiscrete):
        return MultiDiscreteRandomPolicy.create_for_env(env)
    raise NotImplementedError


def random_for_discrete(self, env):
    if isinstance(env.action_space, gym.spaces.Discrete):
        return self(num_actions=env.action_space.n)
    raise NotImplementedError


def random_act(self, ctor, obs, possible_actions_mask=None):
    scores = torch.ones((obs.float_features.shape[0], self.num_actions))
    m = torch.distributions.Categorical(apply_possible_actions_mask(scores, possible_actions_mask, invalid_score=0.0))
    drawn = m.sample()
    return rlt.ActorOutput(action=F.one_hot(drawn, self.num_actions), log_prob=m.log_prob(drawn).float())


def random_built(self, ctor):
    self.num_actions = ctor.num_actions


def multi_built(self, ctor):
    self.num_action_vec = ctor.num_action_vec
    self.dists = [torch.distributions.Categorical(torch.ones(n) / n) for n in ctor.num_action_vec]


def random_for_multi(self, env):
    if isinstance(env.action_space, gym.spaces.MultiDiscrete):
        return self(env.action_space.nvec.tolist())
    raise ValueError("invalid")


def multi_act(self, ctor, obs, possible_actions_mask=None):
    n = obs.float_features.shape[0]
    acts = []
    lps = []
    for m in self.dists:
        a = m.sample((n, 1))
        acts.append(a)
        lps.append(m.log_prob(a).float())
    return rlt.ActorOutput(action=torch.cat(acts, dim=1), log_prob=torch.cat(lps, dim=1).sum(1, keepdim=True))


def uniform_built(self, ctor):
    self.low = ctor.low
    self.high = ctor.high
    self.dist = torch.distributions.uniform.Uniform(ctor.low, ctor.high)


def random_for_box(self, env):
    space = env.action_space
    if isinstance(space, gym.spaces.Discrete):
        raise NotImplementedError
    if isinstance(space, gym.spaces.Box):
        low, high = CONTINUOUS_TRAINING_ACTION_RANGE
        ones = np.ones(space.shape)
        return self(low=torch.tensor(low * ones), high=torch.tensor(high * ones))
    raise NotImplementedError


def uniform_act(self, ctor, obs, possible_actions_mask=None):
    a = self.dist.sample((obs.float_features.size(0),))
    return rlt.ActorOutput(action=a, log_prob=self.dist.log_prob(a).sum(1))
