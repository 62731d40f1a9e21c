"""Reference definitions: categorical (C51) and quantile (QR-DQN) trainers."""
import torch
from specs.common import IMPOSSIBLE, boosts, discount, use_override


def masked_argmax(q, mask):
    return (q.reshape(mask.shape) + IMPOSSIBLE * (1 - mask)).argmax(1)


def c51(self, ctor, batch, batch_idx):
    rl = ctor.rl
    reward = batch.reward + torch.sum(batch.action * boosts(rl, ctor.actions), dim=1, keepdim=True)
    gamma_t = discount(self, rl.gamma, rl, reward, batch)
    support = torch.linspace(ctor.qmin, ctor.qmax, ctor.num_atoms)
    width = (ctor.qmax - ctor.qmin) / (ctor.num_atoms - 1)
    with torch.no_grad():
        p_target = ctor.q_network_target.log_dist(batch.next_state).exp()
        if use_override(self._maxq_learning, rl.maxq_learning):
            if ctor.double_q_learning:
                q = (ctor.q_network.log_dist(batch.next_state).exp() * support).sum(2)
            else:
                q = (p_target * support).sum(2)
            best = masked_argmax(q, batch.possible_next_actions_mask)
            p_next = p_target[range(reward.shape[0]), best.reshape(-1)]
        else:
            p_next = (p_target * batch.next_action.unsqueeze(-1)).sum(1)
        z = (reward + gamma_t * batch.not_terminal * support).clamp(ctor.qmin, ctor.qmax)
        b = (z - ctor.qmin) / width
        lo = b.floor()
        up = b.ceil()
        # an atom that falls exactly on a support point keeps its whole mass
        lo[(up > 0) * (lo == up)] -= 1
        up[(lo < (ctor.num_atoms - 1)) * (lo == up)] += 1
        m = torch.zeros_like(p_next)
        m.scatter_add_(dim=1, index=lo, src=p_next * (up - b))
        m.scatter_add_(dim=1, index=up, src=p_next * (b - lo))
    logp = (ctor.q_network.log_dist(batch.state) * batch.action.unsqueeze(-1)).sum(1)
    yield -(m * logp).sum(1).mean()
    yield self.soft_update_result()


def qrdqn(self, ctor, batch, batch_idx):
    rl = ctor.rl
    reward = batch.reward + torch.sum(batch.action * boosts(rl, ctor.actions), dim=1, keepdim=True)
    gamma_t = discount(self, rl.gamma, rl, reward, batch)
    quantiles = ((0.5 + torch.arange(ctor.num_atoms)) / ctor.num_atoms).view(1, -1)
    with torch.no_grad():
        next_q = ctor.q_network_target(batch.next_state)
        if use_override(self._maxq_learning, rl.maxq_learning):
            if ctor.double_q_learning:
                mean = ctor.q_network(batch.next_state).mean(dim=2)
            else:
                mean = next_q.mean(dim=2)
            best = masked_argmax(mean, batch.possible_next_actions_mask)
            next_q = next_q[range(reward.shape[0]), best.reshape(-1)]
        else:
            next_q = (next_q * batch.next_action.unsqueeze(-1)).sum(1)
        target = reward + gamma_t * batch.not_terminal * next_q
    q_all = ctor.q_network(batch.state)
    q = (q_all * batch.action.unsqueeze(-1)).sum(1)
    td = target.t().unsqueeze(-1) - q
    huber = torch.where(td.abs() < 1, 0.5 * td * td, td.abs() - 0.5)
    weight = (quantiles - (td.detach() < 0).float()).abs()
    yield (huber * weight).mean()
    yield from self._calculate_cpes(
        batch,
        batch.state,
        batch.next_state,
        q_all.mean(2).detach(),
        ctor.q_network(batch.next_state).detach().mean(dim=2),
        torch.argmax(batch.action, dim=1, keepdim=True),
        gamma_t,
        batch.not_terminal,
    )
    yield self.soft_update_result()


def qr_values(self, ctor, state):
    return ctor.q_network(state).mean(dim=2), ctor.q_network_target(state).mean(dim=2)
