"""P39: world models, planners, sequence-reward models"""
import itertools
from collections import deque
import random

import numpy as np
import scipy.stats as stats
import torch
import torch.nn as nn
import torch.nn.functional as F
from torch.distributions.bernoulli import Bernoulli
from torch.distributions.categorical import Categorical
from torch.distributions.normal import Normal

from reagent import types as rlt
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.mdn_rnn import MDNRNN, MDNRNNMemorySample, gmm_loss
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE
from reagent.torch_utils import get_device, stack
from reagent.training.loss_reporter import NoOpLossReporter
from reagent.training.utils import gen_permutations, rescale_actions
from reagent.training.world_model.seq2reward_trainer import get_Q, get_step_prediction
from specs.common import own


# ---- mixture density network ----
def mdnrnn_init(self, ctor):
    s = ctor.state_dim
    self.state_dim = s
    self.action_dim = ctor.action_dim
    self.num_hiddens = ctor.num_hiddens
    self.num_hidden_layers = ctor.num_hidden_layers
    self.num_gaussians = ctor.num_gaussians
    self.rnn = nn.LSTM(input_size=s + ctor.action_dim, hidden_size=ctor.num_hiddens, num_layers=ctor.num_hidden_layers)
    self.gmm_linear = nn.Linear(ctor.num_hiddens, (2 * s + 1) * ctor.num_gaussians + 2)


def mdnrnn(self, ctor, actions, states, hidden):
    t, b = actions.size(0), actions.size(1)
    steps, last = self.rnn(torch.cat([actions, states], dim=-1), hidden)
    out = self.gmm_linear(steps)
    k = self.num_gaussians
    w = k * self.state_dim
    mus = out[:, :, :w].view(t, b, k, self.state_dim)
    sigmas = torch.exp(out[:, :, w : 2 * w].view(t, b, k, self.state_dim))
    logpi = F.log_softmax(out[:, :, 2 * w : 2 * w + k].view(t, b, k), dim=-1)
    return mus, sigmas, logpi, out[:, :, -2], out[:, :, -1], steps, last


def mdnrnn_hidden(self, ctor, batch_size):
    return (torch.zeros(self.num_hidden_layers, batch_size, self.num_hiddens), torch.zeros(self.num_hidden_layers, batch_size, self.num_hiddens))


def mixture_nll(batch, mus, sigmas, logpi, reduce):
    each = logpi + torch.sum(Normal(mus, sigmas).log_prob(batch.unsqueeze(-2)), dim=-1)
    top = torch.max(each, dim=-1, keepdim=True)[0]
    log_prob = top.squeeze(-1) + torch.log(torch.sum(torch.exp(each - top), dim=-1))
    if reduce:
        return -torch.mean(log_prob)
    return -log_prob


def memory_init(self, ctor):
    self.mdnrnn = MDNRNN(
        state_dim=ctor.state_dim, action_dim=ctor.action_dim, num_hiddens=ctor.num_hiddens,
        num_hidden_layers=ctor.num_hidden_layers, num_gaussians=ctor.num_gaussians)
    self.state_dim = ctor.state_dim
    self.action_dim = ctor.action_dim
    self.num_hiddens = ctor.num_hiddens
    self.num_hidden_layers = ctor.num_hidden_layers
    self.num_gaussians = ctor.num_gaussians


def memory(self, ctor, state, action):
    mus, sigmas, logpi, reward, alive, steps, last = self.mdnrnn(action.float_features, state.float_features)
    return rlt.MemoryNetworkOutput(
        mus=mus, sigmas=sigmas, logpi=logpi, reward=reward, not_terminal=alive,
        last_step_lstm_hidden=last[0], last_step_lstm_cell=last[1], all_steps_lstm_hidden=steps)


# ---- its memory ----
def pool_rows(self, ctor, indices):
    for i in indices:
        s = self.replay_memory[i]
        yield s.state, s.action, s.next_state, s.reward, s.not_terminal


def pool_sample(self, ctor, batch_size, use_gpu):
    rows = self.deque_sample(np.random.randint(self.memory_size, size=batch_size))
    state, action, next_state, reward, alive = [stack(x).float().transpose(1, 0) for x in zip(*rows)]
    return rlt.MemoryNetworkInput(
        state=rlt.FeatureData(float_features=state), reward=reward, time_diff=torch.ones_like(reward).float(), action=action,
        next_state=rlt.FeatureData(float_features=next_state), not_terminal=alive, step=None)


def pool_insert(self, ctor, state, action, next_state, reward, not_terminal):
    self.replay_memory.append(
        MDNRNNMemorySample(state=state, action=action, next_state=next_state, reward=reward, not_terminal=not_terminal))
    self.accu_memory_num += 1


def pool_size(self, ctor):
    return min(self.accu_memory_num, self.max_replay_memory_size)


def flipped(*args):
    return [a.transpose(1, 0) for a in args]


# ---- its trainer ----
def world_losses(self, ctor, training_batch, state_dim):
    out = self.memory_network(training_batch.state, rlt.FeatureData(training_batch.action))
    start = -1 if self.params.fit_only_one_next_step else None
    next_state = training_batch.next_state.float_features
    alive = training_batch.not_terminal.float()
    reward = training_batch.reward
    mus = out.mus
    sigmas = out.sigmas
    logpi = out.logpi
    r = out.reward
    nt = out.not_terminal
    if self.params.fit_only_one_next_step:
        next_state = next_state[-1:]
        alive = alive[-1:]
        reward = reward[-1:]
        mus = mus[-1:]
        sigmas = sigmas[-1:]
        logpi = logpi[-1:]
        r = r[-1:]
        nt = nt[-1:]
    gmm = gmm_loss(next_state, mus, sigmas, logpi) * self.params.next_state_loss_weight
    bce = F.binary_cross_entropy_with_logits(nt, alive) * self.params.not_terminal_loss_weight
    mse = F.mse_loss(r, reward) * self.params.reward_loss_weight
    scaled = gmm if state_dim is None else gmm / (state_dim + 2)
    return {"gmm": gmm, "bce": bce, "mse": mse, "loss": scaled + bce + mse}


def world_train(self, ctor, training_batch):
    self.minibatch += 1
    self.memory_network.mdnrnn.train()
    self.optimizer.zero_grad()
    losses = self.get_loss(training_batch, training_batch.state.float_features.shape[2])
    losses["loss"].backward()
    self.optimizer.step()
    out = {k: v.detach().item() for k, v in losses.items()}
    self.cum_loss.append(out["loss"])
    self.cum_gmm.append(out["gmm"])
    self.cum_bce.append(out["bce"])
    self.cum_mse.append(out["mse"])
    return out


def cem_train(self, ctor, training_batch):
    for trainer in self.world_model_trainers:
        trainer.train(training_batch)
    self.minibatch += 1


# ---- cross-entropy planner ----
def plan(self, ctor, state):
    if self.discrete_action:
        return self.discrete_planning(state)
    return self.continuous_planning(state)


def one_solution(self, ctor, init_state, solution, solution_idx):
    rewards = np.zeros((self.ensemble_pop_size, self.plan_horizon_length))
    for i in range(self.ensemble_pop_size):
        state = init_state
        m = np.random.randint(0, len(self.mem_net_list))
        for j in range(self.plan_horizon_length):
            reward, next_state, alive, _ = self.sample_reward_next_state_terminal(
                state=rlt.FeatureData(state.reshape((1, 1, self.state_dim))),
                action=rlt.FeatureData(solution[j, :].reshape((1, 1, self.action_dim))),
                mem_net=self.mem_net_list[m])
            rewards[i, j] = reward * self.gamma ** j
            if not alive:
                break
            state = next_state
    return np.sum(rewards, axis=1)


def all_solutions(self, ctor, state, solutions):
    out = np.zeros(self.cem_pop_size)
    for i in range(self.cem_pop_size):
        out[i] = self.acc_rewards_of_one_solution(state.float_features, solutions[i], i)
    return out


def one_step(self, ctor, state, action, mem_net):
    out = mem_net(state, action)
    k = Categorical(torch.exp(out.logpi.view(out.logpi.shape[2]))).sample().long().item()
    next_state = Normal(out.mus[0, 0, k], out.sigmas[0, 0, k]).sample()
    p = 1.0
    alive = 1
    if self.terminal_effective:
        p = torch.sigmoid(out.not_terminal[0, 0])
        alive = Bernoulli(p).sample().long().item()
    return out.reward[0, 0], next_state, alive, p


def bounded_variance(self, ctor, mean, var):
    low = (mean - self.action_lower_bounds) / 2
    high = (self.action_upper_bounds - mean) / 2
    return np.minimum(np.minimum(low ** 2, high ** 2), var)


def continuous(self, ctor, state):
    mean = (self.action_upper_bounds + self.action_lower_bounds) / 2
    var = (self.action_upper_bounds - self.action_lower_bounds) ** 2 / 16
    sampler = stats.truncnorm(-2, 2, loc=np.zeros_like(mean), scale=np.ones_like(mean))
    for i in range(self.cem_num_iterations):
        noise = sampler.rvs(size=[self.cem_pop_size, self.action_dim * self.plan_horizon_length])
        solutions = noise * np.sqrt(self.constrained_variance(mean, var)) + mean
        grid = torch.from_numpy(solutions.reshape((self.cem_pop_size, self.plan_horizon_length, self.action_dim))).float()
        elites = solutions[np.argsort(self.acc_rewards_of_all_solutions(state, grid))][-self.num_elites :]
        mean = self.alpha * mean + (1 - self.alpha) * np.mean(elites, axis=0)
        var = self.alpha * var + (1 - self.alpha) * np.var(elites, axis=0)
        if np.max(var) <= self.epsilon:
            break
    return rescale_actions(
        torch.tensor(mean[: self.action_dim].reshape(-1)),
        new_min=torch.tensor(CONTINUOUS_TRAINING_ACTION_RANGE[0]),
        new_max=torch.tensor(CONTINUOUS_TRAINING_ACTION_RANGE[1]),
        prev_min=self.orig_action_lower,
        prev_max=self.orig_action_upper)


def discrete(self, ctor, state):
    every = list(itertools.product(range(self.action_dim), repeat=self.plan_horizon_length))
    tried = random.choices(every, k=self.cem_pop_size)
    grid = torch.zeros(self.cem_pop_size, self.plan_horizon_length, self.action_dim)
    for i, seq in enumerate(tried):
        for j, a in enumerate(seq):
            grid[i, j, a] = 1
    rewards = self.acc_rewards_of_all_solutions(state, grid)
    count = np.zeros(self.action_dim)
    total = np.zeros(self.action_dim)
    for seq, r in zip(tried, rewards):
        count[seq[0]] += 1
        total[seq[0]] += r
    best = np.nanargmax(total / count)
    chosen = torch.zeros(self.action_dim).float()
    chosen[best] = 1
    return best, chosen


def planner_init(self, ctor):
    self.mem_net_list = nn.ModuleList(ctor.mem_net_list)
    self.cem_num_iterations = ctor.cem_num_iterations
    self.cem_pop_size = ctor.cem_population_size
    self.ensemble_pop_size = ctor.ensemble_population_size
    self.num_elites = ctor.num_elites
    self.plan_horizon_length = ctor.plan_horizon_length
    self.state_dim = ctor.state_dim
    self.action_dim = ctor.action_dim
    self.terminal_effective = ctor.terminal_effective
    self.gamma = ctor.gamma
    self.alpha = ctor.alpha
    self.epsilon = ctor.epsilon
    self.discrete_action = ctor.discrete_action
    if not ctor.discrete_action:
        self.action_upper_bounds = np.tile(ctor.action_upper_bounds, ctor.plan_horizon_length)
        self.action_lower_bounds = np.tile(ctor.action_lower_bounds, ctor.plan_horizon_length)
        self.orig_action_upper = torch.tensor(ctor.action_upper_bounds)
        self.orig_action_lower = torch.tensor(ctor.action_lower_bounds)


# ---- sequence reward ----
def seq2reward_init(self, ctor):
    self.state_dim = ctor.state_dim
    self.action_dim = ctor.action_dim
    self.num_hiddens = ctor.num_hiddens
    self.num_hidden_layers = ctor.num_hidden_layers
    self.rnn = nn.LSTM(input_size=ctor.action_dim, hidden_size=ctor.num_hiddens, num_layers=ctor.num_hidden_layers)
    self.lstm_linear = nn.Linear(ctor.num_hiddens, 1)
    self.map_linear = nn.Linear(ctor.state_dim, ctor.num_hiddens)


def seq2reward(self, ctor, state, action, valid_reward_len):
    states = state.float_features
    b = states.shape[1]
    steps, _ = self.rnn(action.float_features, self.get_initial_hidden_state(states[0][None, :, :], batch_size=b))
    if valid_reward_len is None:
        return rlt.Seq2RewardOutput(acc_reward=self.lstm_linear(steps[-1]))
    return rlt.Seq2RewardOutput(acc_reward=self.lstm_linear(steps[valid_reward_len - 1, torch.arange(b)]))


def seq2reward_hidden(self, ctor, state, batch_size):
    h = self.map_linear(state.repeat(self.num_hidden_layers, 1, 1))
    return h, torch.zeros(self.num_hidden_layers, batch_size, self.num_hiddens)


def permutations(seq_len, num_action):
    every = torch.cartesian_prod(*[torch.arange(num_action)] * seq_len)
    if seq_len == 1:
        every = every.unsqueeze(1)
    return F.one_hot(every, num_action).transpose(0, 1).float()


def step_probability(step_predict_network, training_batch):
    return F.softmax(step_predict_network(training_batch.state.float_features[0]), dim=1).detach()


def planned_values(seq2reward_network, cur_state, all_permut):
    b = cur_state.shape[0]
    _, n, a = all_permut.shape
    state = rlt.FeatureData(cur_state.unsqueeze(0).repeat_interleave(n, dim=1))
    out = seq2reward_network(state, rlt.FeatureData(all_permut.repeat(1, b, 1))).acc_reward
    return torch.max(out.reshape(b, a, int(n / a)), dim=2).values.detach().reshape(b, a)


def seq2reward_loss(self, ctor, training_batch):
    n = training_batch.valid_next_seq_len.flatten()
    steps = self.step_loss(self.step_predict_network(training_batch.state.float_features[0]), n - 1)
    predicted = self.seq2reward_network(training_batch.state, rlt.FeatureData(training_batch.action), n).acc_reward
    t, b = training_batch.reward.size()
    discount = torch.Tensor([[self.params.gamma ** i for i in range(t)] for _ in range(b)]).transpose(0, 1)
    target = torch.cumsum(training_batch.reward * discount, dim=0)[n - 1, torch.arange(b)].unsqueeze(1)
    assert predicted.size() == target.size()
    return self.mse_loss(predicted, target), steps


def seq2reward_train(self, ctor, training_batch):
    mse, steps = self.get_loss(training_batch)
    self.mse_optimizer.zero_grad()
    mse.backward()
    self.mse_optimizer.step()
    self.step_optimizer.zero_grad()
    steps.backward()
    self.step_optimizer.step()
    if self.view_q_value:
        q = get_Q(self.seq2reward_network, training_batch.state.float_features[0], self.all_permut).mean(0).tolist()
    else:
        q = [0] * len(self.params.action_names)
    mse = mse.detach().item()
    steps = steps.detach().item()
    self.notify_observers(mse_loss=mse, step_entropy_loss=steps, q_values=[q])
    return mse, steps, q


def seq2reward_trainer_init(self, ctor):
    net = ctor.seq2reward_network
    p = ctor.params
    self.seq2reward_network = net
    self.params = p
    self.mse_optimizer = torch.optim.Adam(net.parameters(), lr=p.learning_rate)
    self.minibatch_size = p.batch_size
    self.view_q_value = p.view_q_value
    self.all_permut = gen_permutations(p.multi_steps, len(p.action_names))
    self.mse_loss = nn.MSELoss(reduction="mean")
    self.step_predict_network = FullyConnectedNetwork(
        [net.state_dim, p.step_predict_net_size, p.step_predict_net_size, p.multi_steps], ["relu", "relu", "linear"], use_layer_norm=False)
    self.step_loss = nn.CrossEntropyLoss(reduction="mean")
    self.step_optimizer = torch.optim.Adam(self.step_predict_network.parameters(), lr=p.learning_rate)


def compress_init(self, ctor):
    p = ctor.params
    self.compress_model_network = ctor.compress_model_network
    self.seq2reward_network = ctor.seq2reward_network
    self.params = p
    self.optimizer = torch.optim.Adam(ctor.compress_model_network.parameters(), lr=p.compress_model_learning_rate)
    self.minibatch_size = p.compress_model_batch_size
    self.all_permut = gen_permutations(p.multi_steps, len(p.action_names))


def compress_train(self, ctor, training_batch):
    self.optimizer.zero_grad()
    loss, accuracy = self.get_loss(training_batch)
    loss.backward()
    self.optimizer.step()
    loss = loss.detach().item()
    accuracy = accuracy.item()
    self.notify_observers(mse_loss=loss, accuracy=accuracy)
    return loss, accuracy


def compress_loss(self, ctor, training_batch):
    state = training_batch.state.float_features[0]
    ours = self.compress_model_network(state)
    target = get_Q(self.seq2reward_network, state, self.all_permut)
    same = torch.max(target, dim=1).indices == torch.max(ours, dim=1).indices
    return F.mse_loss(ours, target), torch.mean(same.float()).detach()


def world_trainer_init(self, ctor):
    self.memory_network = ctor.memory_network
    self.params = ctor.params
    self.optimizer = torch.optim.Adam(ctor.memory_network.mdnrnn.parameters(), lr=ctor.params.learning_rate)
    self.minibatch = 0
    self.minibatch_size = ctor.params.minibatch_size


def cem_trainer_init(self, ctor):
    self.cem_planner_network = ctor.cem_planner_network
    self.world_model_trainers = ctor.world_model_trainers
    self.minibatch_size = ctor.parameters.mdnrnn.minibatch_size
    self.minibatch = 0


def pool_init(self, ctor):
    self.replay_memory = deque(maxlen=ctor.max_replay_memory_size)
    self.max_replay_memory_size = ctor.max_replay_memory_size
    self.accu_memory_num = 0


# ---- debugging evaluators ----
def losses(self, ctor, tdp):
    out = self.trainer.get_loss(tdp, state_dim=self.state_dim)
    return {k: out[k].detach().item() for k in ("loss", "gmm", "bce", "mse")}


def typical(self, ctor, features):
    if features.shape[1] > 1:
        counts = torch.sum(features, dim=0)
        middle = torch.median(counts)
        for i in range(features.shape[1]):
            if counts[i] == middle:
                break
        out = torch.zeros(features.shape[1])
        out[i] = 1
        return out
    return features.mean(dim=0)


def relabel(batch, state, action):
    return rlt.MemoryNetworkInput(
        state=state, action=action, next_state=batch.next_state, reward=batch.reward,
        time_diff=torch.ones_like(batch.reward).float(), not_terminal=batch.not_terminal, step=None)


def importance(self, ctor, batch):
    t, b, width = batch.state.float_features.size()
    action_width = batch.action.size()[2]
    na = self.action_feature_num
    ns = self.state_feature_num
    out = torch.zeros(na + ns)
    base = self.trainer.get_loss(batch, state_dim=width)["loss"].detach().item()
    action_edges = self.sorted_action_feature_start_indices + [action_width]
    state_edges = self.sorted_state_feature_start_indices + [width]
    for i in range(na):
        a = batch.action.reshape((b * t, action_width)).clone()
        if self.discrete_action:
            one = torch.zeros(action_width)
            one[i] = 1
            a[:] = one
        else:
            low, high = action_edges[i], action_edges[i + 1]
            a[:, low:high] = self.compute_median_feature_value(a[:, low:high])
        changed = relabel(batch, batch.state, a.reshape((t, b, action_width)))
        out[i] = self.trainer.get_loss(changed, state_dim=width)["loss"].detach().item() - base
    for i in range(ns):
        s = batch.state.float_features.reshape((b * t, width)).clone()
        low, high = state_edges[i], state_edges[i + 1]
        s[:, low:high] = self.compute_median_feature_value(s[:, low:high])
        changed = relabel(batch, rlt.FeatureData(float_features=s.reshape((t, b, width))), batch.action)
        out[i + na] = self.trainer.get_loss(changed, state_dim=width)["loss"].detach().item() - base
    return {"feature_loss_increase": out.numpy()}


def sensitivity(self, ctor, batch):
    t, b, width = batch.next_state.float_features.size()
    n = self.state_feature_num
    out = torch.zeros(n)
    straight = self.trainer.memory_network(batch.state, rlt.FeatureData(batch.action)).mus
    shuffled = self.trainer.memory_network(batch.state, rlt.FeatureData(batch.action[:, torch.randperm(b), :])).mus
    assert straight.size() == shuffled.size() == (t, b, self.trainer.params.num_gaussians, width)
    edges = self.sorted_state_feature_start_indices + [width]
    for i in range(n):
        low, high = edges[i], edges[i + 1]
        gap = torch.abs(shuffled[:, :, :, low:high] - straight[:, :, :, low:high])
        out[i] = torch.mean(torch.sum(gap, dim=3)).detach().item()
    return {"feature_sensitivity": out.numpy()}


def loss_init(self, ctor):
    self.trainer = ctor.trainer
    self.state_dim = ctor.state_dim
    return self


def importance_init(self, ctor):
    self.trainer = ctor.trainer
    self.discrete_action = ctor.discrete_action
    self.state_feature_num = ctor.state_feature_num
    self.action_feature_num = ctor.action_feature_num
    self.sorted_action_feature_start_indices = ctor.sorted_action_feature_start_indices
    self.sorted_state_feature_start_indices = ctor.sorted_state_feature_start_indices
    return self


def sensitivity_init(self, ctor):
    self.trainer = ctor.trainer
    self.state_feature_num = ctor.state_feature_num
    self.sorted_state_feature_start_indices = ctor.sorted_state_feature_start_indices
    return self
