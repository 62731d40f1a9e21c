"""Reference definitions: off-policy estimators over episodes."""
import random
from copy import deepcopy
from functools import reduce
from itertools import zip_longest

import numpy as np
import torch
import torch.nn.functional as F
from reagent.ope.estimators.estimator import EstimatorResult, EstimatorResults
from reagent.ope.trainers.linear_trainers import LinearNet
from reagent.ope.utils import Clamper, RunningAverage


# ---- policies
def random_init(self, ctor):
    self._action_space, self._device, self._prob = ctor.action_space, ctor.device, 1.0 / len(ctor.action_space)


def random_dist(self, ctor, state):
    return self._action_space.distribution([self._prob] * len(self._action_space))


def epsilon_init(self, ctor):
    self._action_space, self._device = ctor.policy._action_space, ctor.policy._device
    self._policy = ctor.policy
    self._exploitation_prob = 1.0 - ctor.epsilon
    self._exploration_prob = ctor.epsilon / len(ctor.policy.action_space)


def epsilon_dist(self, ctor, state):
    d = deepcopy(self._policy(state))
    for a, p in d:
        d[a] = p * self._exploitation_prob + self._exploration_prob
    return d


def value_of(self, ctor, state, action=None):
    if action is None:
        return self.state_value(state)
    return self.state_action_value(state, action)


# ---- averages over episodes
def log_reward(self, ctor, gamma, mdps):
    avg = RunningAverage()
    for mdp in mdps:
        d, r = 1.0, 0.0
        for t in mdp:
            r += d * t.reward
            d *= gamma
        avg.add(r)
    return avg.average


def estimate_value(self, ctor, gamma, mdps, value_function):
    avg = RunningAverage()
    for mdp in mdps:
        d, r = 1.0, 0.0
        for t in mdp:
            if t.last_state is None:
                break
            r += d * value_function(t.last_state)
            d *= gamma
        avg.add(r)
    return avg.average


def result(self, input, estimate):
    out = EstimatorResults()
    truth = None if input.ground_truth is None else self._estimate_value(input.gamma, input.log, input.ground_truth)
    out.append(EstimatorResult(self._log_reward(input.gamma, input.log), estimate, truth))
    return out


def direct(self, ctor, input):
    return result(self, input, self._estimate_value(input.gamma, input.log, input.value_function))


# ---- importance weights
def ips_init(self, ctor):
    self._device = ctor.device
    self._weight_clamper = Clamper() if ctor.weight_clamper is None else ctor.weight_clamper
    self._weighted = ctor.weighted


def magic_init(self, ctor):
    self._device = ctor.device
    self._weight_clamper = Clamper() if ctor.weight_clamper is None else ctor.weight_clamper
    self._weighted = True


def weights(self, ctor, episodes, horizon, mdp_transitions, policy):
    pi_e, pi_b, mask = torch.ones((episodes, horizon)), torch.ones((episodes, horizon)), torch.ones((episodes, horizon))
    for j, ts in enumerate(mdp_transitions):
        for i, t in enumerate(ts):
            if t is not None and t.action is not None and t.action_prob > 0.0:
                pi_e[i, j] = policy(t.last_state)[t.action]
                pi_b[i, j] = t.action_prob
            else:
                mask[i, j] = 0.0
    rho = (pi_e / pi_b).cumprod(1) * mask
    total = rho.sum(0) if self._weighted else mask.sum(0)
    total = total + total.lt(1.0e-15) * episodes
    return self._weight_clamper(rho / total)


def longest(log):
    return len(reduce(lambda a, b: a if len(a) > len(b) else b, log))


def discounts(self, horizon, gamma):
    d = torch.full((horizon,), gamma)
    d[0] = 1.0
    return d.cumprod(0)


def ips(self, ctor, input):
    n, h = len(input.log), longest(input.log)
    w = self._calc_weights(n, h, zip_longest(*input.log), input.target_policy)
    d = discounts(self, h, input.gamma)
    r = torch.zeros((n, h))
    for j, ts in enumerate(zip_longest(*input.log)):
        for i, t in enumerate(ts):
            if t is not None:
                r[i, j] = t.reward
    return result(self, input, (w * r).sum(0).mul(d).sum().item())


def tables(self, input, n, h):
    rs, vs, qs = torch.zeros((n, h)), torch.zeros((n, h)), torch.zeros((n, h))
    for j, ts in enumerate(zip_longest(*input.log)):
        for i, t in enumerate(ts):
            if t is not None and t.action is not None:
                qs[i, j] = input.value_function(t.last_state, t.action)
                vs[i, j] = input.value_function(t.last_state)
                rs[i, j] = t.reward
    return rs, vs, qs


def shifted(w, n, h):
    last = torch.zeros((n, h))
    last[:, 0] = 1.0 / n
    last[:, 1:] = w[:, :-1]
    return last


def doubly_robust(self, ctor, input):
    n, h = len(input.log), longest(input.log)
    w = self._calc_weights(n, h, zip_longest(*input.log), input.target_policy)
    last = shifted(w, n, h)
    d = discounts(self, h, input.gamma)
    rs, vs, qs = tables(self, input, n, h)
    return result(self, input, ((w * (rs - qs) + last * vs).sum(0) * d).sum().item())


def magic(self, ctor, input, **kwargs):
    resamples = kwargs["num_resamples"] if "num_resamples" in kwargs else 200
    threshold = kwargs["loss_threshold"] if "loss_threshold" in kwargs else 0.00001
    lr = kwargs["lr"] if "lr" in kwargs else 0.0001
    n, h = len(input.log), longest(input.log)
    w = self._calc_weights(n, h, zip_longest(*input.log), input.target_policy)
    last = shifted(w, n, h)
    d = discounts(self, h, input.gamma)
    rs, vs, qs = tables(self, input, n, h)
    wdrs = ((w * (rs - qs) + last * vs) * d).cumsum(1)
    wdr = wdrs[:, -1].sum(0)
    after = torch.zeros((n, h))
    after[:, :-1] = vs[:, 1:]
    gs = wdrs + w * after * d
    c = gs - torch.mean(gs, 0)
    omega = (n / (n - 1.0)) * torch.einsum("ij,ik->jk", c, c)
    boot = torch.zeros((resamples,))
    for i in range(resamples):
        s = random.choices(range(n), k=n)
        boot[i] = ((w[s, :] * (rs[s, :] - qs[s, :]) + last[s, :] * vs[s, :]).sum(0) * d).sum().item()
    boot, _ = boot.sort(0)
    lo = torch.min(wdr, boot[int(round(0.05 * resamples))])
    hi = torch.max(wdr, boot[int(round(0.95 * resamples)) - 1])
    b = torch.tensor(list(map(lambda a: a - hi if a > hi else (a - lo if a < lo else 0.0), gs.sum(0))))
    b = b.unsqueeze(0)
    cov = omega + b * b.t()
    x = torch.zeros((1, h), requires_grad=True)
    opt = torch.optim.SGD([x], lr=lr)
    last_y = 0.0
    for i in range(100):
        x = F.softmax(x, dim=1)
        y = torch.mm(torch.mm(x, cov), x.t())
        if abs(y.item() - last_y) < threshold:
            break
        last_y = y.item()
        opt.zero_grad()
        y.backward(retain_graph=True)
        opt.step()
    x = F.softmax(x, dim=1)
    return result(self, input, torch.mm(x, gs.sum(0, keepdim=True).t()).item())


# ---- DualDICE
def convex(self, degree):
    return lambda x: (torch.abs(x) ** degree) / degree


def dice_init(self):
    q = self.polynomial_degree / (self.polynomial_degree - 1)
    self.f = self._get_convex_f(self.polynomial_degree)
    self.fconjugate = self._get_convex_f(q)
    self.reset()


def dice_reset(self):
    self.v_net = LinearNet(self.state_dim + self.action_dim, self.hidden_dim, 1, self.hidden_layers, self.activation)
    self.zeta_net = deepcopy(self.v_net)
    self.v = self._build_function(self.v_net)
    self.zeta = self._build_function(self.zeta_net)


def dice_function(self, net):
    return lambda s, a: net(torch.cat((s, a), dim=1))


def one_hot(self, a):
    return F.one_hot(torch.tensor(a, dtype=torch.long), self.action_dim)


def dice_value(self, mdps, gamma):
    avg = RunningAverage()
    for mdp in mdps:
        d, r = 1.0, 0.0
        for t in mdp:
            z = self.zeta(
                torch.tensor(t.last_state.value, dtype=torch.float).reshape(-1, self.state_dim),
                one_hot(self, t.action.value).reshape(-1, self.action_dim).float(),
            )
            r += d * t.reward * z.detach().item()
            d *= gamma
        avg.add(r)
    return avg.average


def dice_estimates(self, input):
    return result(self, input, self._mdps_value(input.log, input.gamma))


def dice_average(self, transition):
    s = transition["state"]
    return sum([
        transition["tgt_action_props"][:, a].reshape(-1, 1)
        * self.v(s, one_hot(self, a).reshape(1, -1).float().repeat(s.shape[0], 1))
        for a in range(self.action_dim)
    ])


def dice_loss(self, gamma, transition, compute_determ_v_loss):
    if self.average_next_v:
        after = self._compute_average_v(transition)
    else:
        after = self.v(transition["state"], transition["next_action"])
    delta = self.v(transition["last_state"], transition["log_action"]) - gamma * after
    start = self.v(transition["init_state"], transition["init_action"])
    if compute_determ_v_loss:
        loss = self.f(delta) - (1 - gamma) * start
    else:
        z = self.zeta(transition["last_state"], transition["log_action"])
        loss = delta * z - self.fconjugate(z) - (1 - gamma) * start
    w = torch.full((loss.shape[0], 1), gamma, dtype=torch.float) ** transition["timestep"].reshape((-1, 1))
    return torch.sum(w * loss) / torch.sum(w)


def dice_data(self, input):
    out = {"init_state": [], "init_action": [], "last_state": [], "state": [], "log_action": [], "next_action": [],
           "tgt_action_props": [], "timestep": [], "reward": []}
    for mdp in input.log:
        s0 = mdp[0].last_state
        a0 = input.target_policy.action_dist(s0).sample()[0]
        for i, t in enumerate(mdp):
            dist = input.target_policy.action_dist(t.state)
            a = dist.sample()[0]
            out["init_state"].append(s0.value)
            out["init_action"].append(one_hot(self, a0.value).float())
            out["last_state"].append(t.last_state.value)
            out["state"].append(t.state.value)
            out["log_action"].append(one_hot(self, t.action.value).float())
            out["next_action"].append(one_hot(self, a.value).float())
            out["tgt_action_props"].append(dist.values)
            out["timestep"].append(i)
            out["reward"].append(t.reward)
    return {k: torch.stack(v) if "action" in k else torch.tensor(v, dtype=torch.float) for k, v in out.items()}


def dice_batch(self, dataset):
    i = np.random.choice(dataset["init_state"].shape[0], self.batch_size)
    return {k: v[i] for k, v in dataset.items()}


def dice_train(self, input):
    data = self._collect_data(input)
    zo = torch.optim.Adam(self.zeta_net.parameters(), lr=self.zeta_lr)
    vo = torch.optim.Adam(self.v_net.parameters(), lr=self.value_lr)
    for k in range(self.training_samples):
        batch = self._sample_batch(data)
        zl = -self._compute_loss(input.gamma, batch, False)
        zo.zero_grad()
        zl.backward()
        zo.step()
        vl = self._compute_loss(input.gamma, batch, True if self.deterministic_env else False)
        vo.zero_grad()
        vl.backward()
        vo.step()
    return self._compute_estimates(input)
