"""Shared reference definitions."""
import torch
import torch.nn.functional as F
from reagent.training.imitator_training import get_valid_actions_from_imitator

IMPOSSIBLE = -1e9


def use_override(override, configured):
    return configured if override is None else override


def discount(self, gamma, rl, like, batch):
    """per-sample bootstrap discount: gamma, gamma**time_diff or gamma**step"""
    if use_override(self._multi_steps, rl.multi_steps) is not None:
        return torch.pow(gamma, batch.step)
    if use_override(self._use_seq_num_diff_as_time_diff, rl.use_seq_num_diff_as_time_diff):
        return torch.pow(gamma, batch.time_diff)
    return torch.full_like(like, gamma)


def boosts(rl, actions):
    b = torch.zeros([1, len(actions)])
    if rl.reward_boost is not None:
        for name in rl.reward_boost.keys():
            b[0, actions.index(name)] = rl.reward_boost[name]
    return b


def masked_max(q, q_target, mask, double_q):
    """greedy next value: argmax under the online net (double) or target net, evaluated on the target net; impossible
    actions are never preferred to possible ones"""
    q = q.reshape(mask.shape) + IMPOSSIBLE * (1 - mask)
    q_target = q_target.reshape(mask.shape) + IMPOSSIBLE * (1 - mask)
    if double_q:
        best = torch.argmax(q, dim=1, keepdim=True)
        return q_target.gather(1, best), best
    v, best = torch.max(q_target, dim=1, keepdim=True)
    return v, best


def regression(kind, x, y):
    if kind == "mse":
        return F.mse_loss(x, y)
    return F.smooth_l1_loss(x, y)


def own(loss, *names):
    """the loss is used to optimise the named networks or parameters only (interpreted by the comparison)"""
    return loss
