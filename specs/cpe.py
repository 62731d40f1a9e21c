"""Reference definitions: counterfactual-evaluation heads."""
import torch
import torch.nn.functional as F
from reagent.torch_utils import masked_softmax
from specs.common import own, regression, use_override


def softmax_over_possible(x, mask, temperature):
    y = x / temperature - (1.0 - mask) * 1e20
    y = y - torch.max(y, dim=1, keepdim=True)[0]
    e = torch.exp(y) * mask
    out = e / e.sum(dim=1, keepdim=True)
    out[out != out] = 0
    return out


def plain_softmax(x, temperature):
    return F.softmax(x / temperature, dim=1)


def real_values(batch):
    if batch.extras.metrics is None:
        return batch.reward
    return torch.cat((batch.reward, batch.extras.metrics), dim=1)


def calculate(self, ctor, batch, states, next_states, scores, next_scores, logged, discount, not_done):
    rl = self.rl_parameters
    if not self.calc_cpe_in_training:
        return
    real = real_values(batch)
    maxq = use_override(self._maxq_learning, rl.maxq_learning)
    policy = masked_softmax(next_scores, batch.possible_next_actions_mask if maxq else batch.next_action, rl.temperature)
    n = len(self.metrics_to_score)
    cols = torch.arange(0, n * len(self._actions), len(self._actions)) + logged
    est = ctor.reward_network(states)
    yield own(F.mse_loss(est.gather(1, cols), real), "reward_network")
    heads = torch.chunk(ctor.q_network_cpe_target(next_states).detach(), n, dim=1)
    target = torch.cat(
        [
            real[:, k : k + 1] + discount * (torch.sum(head * policy, 1, keepdim=True) * not_done)
            for k, head in enumerate(heads)
        ],
        dim=1,
    )
    yield own(regression(rl.q_network_loss, ctor.q_network_cpe(states).gather(1, cols), target), "q_network_cpe")


def eager_setup(self, ctor, reward_network, q_network_cpe, q_network_cpe_target, optimizer):
    if self.calc_cpe_in_training:
        self.reward_network = reward_network
        self.reward_network_optimizer = optimizer.make_optimizer(reward_network.parameters())
        self.q_network_cpe = q_network_cpe
        self.q_network_cpe_target = q_network_cpe_target
        self.q_network_cpe_optimizer = optimizer.make_optimizer(q_network_cpe.parameters())
        n = len(self._actions)
        self.reward_idx_offsets = torch.arange(0, len(self.metrics_to_score) * n, n)
    else:
        self.reward_network = None


def eager(self, ctor, batch, states, next_states, scores, next_scores, logged, discount, not_done):
    """the same heads, trained at once by their own optimizers"""
    if not self.calc_cpe_in_training:
        return None, None, None
    real = real_values(batch)
    t = self.rl_parameters.temperature
    policy = masked_softmax(next_scores, batch.possible_next_actions_mask if self.maxq_learning else batch.next_action, t).detach()
    cols = self.reward_idx_offsets + logged
    est = self.reward_network(states)
    loss = F.mse_loss(est.gather(1, cols), real)
    loss.backward()
    self._maybe_run_optimizer(self.reward_network_optimizer, self.minibatches_per_step)
    values = self.q_network_cpe(states).gather(1, cols)
    heads = torch.chunk(self.q_network_cpe_target(next_states).detach(), len(self.metrics_to_score), dim=1)
    target = torch.cat(
        [real[:, k : k + 1] + discount * (torch.sum(head * policy, 1, keepdim=True) * not_done) for k, head in enumerate(heads)], dim=1
    )
    self.q_network_loss(values, target).backward()
    self._maybe_run_optimizer(self.q_network_cpe_optimizer, self.minibatches_per_step)
    self._maybe_soft_update(self.q_network_cpe, self.q_network_cpe_target, self.tau, self.minibatches_per_step)
    now = masked_softmax(scores, batch.possible_actions_mask if self.maxq_learning else batch.action, t)
    first = self.reward_idx_offsets[0]
    return loss, est[:, torch.arange(first, first + len(self._actions))], now
