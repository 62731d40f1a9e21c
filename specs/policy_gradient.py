"""Reference definitions: REINFORCE and PPO."""
import math
import numpy as np
import torch
import torch.nn.functional as F
from specs.common import own

EPS = np.finfo(float).eps.item()


def whiten(x, subtract_mean):
    centred = x - x.mean() if subtract_mean else x
    return centred / (x.std() + EPS)


def returns_to_go(rewards, gamma):
    if gamma == 0:
        return rewards.float()
    total = 0
    out = []
    for r in rewards.numpy()[::-1]:
        total = r + gamma * total
        out.insert(0, total)
    return torch.tensor(out).float()


def returns(rewards, clip, gamma, normalize, subtract_mean, clamp_min):
    r = returns_to_go(torch.clamp(rewards.detach(), max=clip), gamma)
    if normalize:
        r = whiten(r, subtract_mean)
    if clamp_min:
        r = r.clamp(min=0)
    return r


def reinforce(self, ctor, batch):
    p = ctor.params
    if batch.possible_actions_mask is not None:
        scores = ctor.actor.scorer(batch.state, batch.possible_actions_mask)
    else:
        scores = ctor.actor.scorer(batch.state)
    r = returns(batch.reward, p.reward_clip, p.gamma, p.normalize, p.subtract_mean, p.offset_clamp_min)
    log_prob = ctor.actor.sampler.log_prob(scores, batch.action).float()
    if self.value_net is not None:
        if p.normalize:
            raise RuntimeError()
        baseline = self.value_net(batch.state).squeeze()
        self.value_net_losses.append(own(F.mse_loss(baseline, r), "value_net"))
        r = r - baseline.detach()
    weight = log_prob
    if p.off_policy:
        weight = torch.exp(torch.clamp(log_prob - batch.log_prob.detach(), max=math.log(float(p.clip_param)))).float()
    self.losses.append(-(r.float()) @ weight)
    self.step += 1
    if self.step % p.update_freq == 0:
        self.update_model()


def reinforce_update(self, ctor):
    if len(self.losses) > 0:
        self.optimizer.zero_grad()
        torch.stack(self.losses).mean().backward()
        del self.losses[:]
        self.optimizer.step()
        if self.value_net_optimizer is not None:
            self.value_net_optimizer.zero_grad()
            torch.stack(self.value_net_losses).mean().backward()
            del self.value_net_losses[:]
            self.value_net_optimizer.step()


def ppo_losses(self, ctor, traj):
    losses = {}
    scores = ctor.policy.scorer(traj.state, traj.possible_actions_mask)
    r = returns(traj.reward, ctor.reward_clip, ctor.gamma, ctor.normalize, ctor.subtract_mean, ctor.offset_clamp_min)
    if self.value_net is not None:
        if ctor.normalize:
            raise RuntimeError()
        baseline = self.value_net(traj.state).squeeze()
        losses["value_net_loss"] = F.mse_loss(baseline, r)
        r = r - baseline.detach()
    ratio = torch.exp(ctor.policy.sampler.log_prob(scores, traj.action).float() - traj.log_prob.detach()).float()
    eps = ctor.ppo_epsilon
    loss = -torch.min(r.float() @ ratio, r.float() @ torch.clamp(ratio, 1 - eps, 1 + eps))
    if ctor.entropy_weight != 0:
        loss = loss - ctor.entropy_weight * ctor.policy.sampler.entropy(scores)
    losses["ppo_loss"] = loss
    return losses


def ppo_update(self, ctor):
    n = len(self.traj_buffer)
    for _ in range(ctor.update_epochs):
        order = torch.randperm(n)
        for start in range(0, n, ctor.ppo_batch_size):
            policy, value = [], []
            for j in order[start : start + ctor.ppo_batch_size]:
                losses = self._trajectory_to_losses(self.traj_buffer[j])
                policy.append(losses["ppo_loss"])
                if self.value_net_optimizer is not None:
                    value.append(losses["value_net_loss"])
            self.optimizer.zero_grad()
            torch.stack(policy).mean().backward()
            self.optimizer.step()
            if self.value_net_optimizer is not None:
                self.value_net_optimizer.zero_grad()
                torch.stack(value).mean().backward()
                self.value_net_optimizer.step()
    self.traj_buffer = []


def ppo_train(self, ctor, batch):
    self.traj_buffer.append(batch)
    self.step += 1
    if self.step % ctor.update_freq == 0:
        self.update_model()
