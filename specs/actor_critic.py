"""Reference definitions: SAC, TD3, discrete CRR."""
import copy
import numpy as np
import torch
import torch.nn.functional as F
import torch.distributions as pyd
import reagent.types as rlt
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE
from specs.common import boosts, own


def q_min(net1, net2, state, action):
    q = net1(state, action)
    if net2 is not None:
        q = torch.min(q, net2(state, action))
    return q


def advantage_weight(self, ctor, advantage):
    if self.indicator_fn_threshold:
        return (advantage >= self.indicator_fn_threshold).float()
    if self.exponent_beta:
        w = torch.exp(advantage / self.exponent_beta)
        if self.exponent_clamp:
            w = torch.clamp(w, 0.0, self.exponent_clamp)
        return w


def sac(self, ctor, batch, batch_idx):
    rl = ctor.rl
    state, action, nxt = batch.state, batch.action, batch.next_state
    temperature = self.entropy_temperature
    with torch.no_grad():
        if ctor.value_network is not None:
            next_v = copy.deepcopy(ctor.value_network)(nxt.float_features)
        else:
            out = ctor.actor_network(nxt)
            a = rlt.FeatureData(out.action)
            next_v = copy.deepcopy(ctor.q1_network)(nxt, a)
            if ctor.q2_network is not None:
                next_v = torch.min(next_v, copy.deepcopy(ctor.q2_network)(nxt, a))
            next_v = next_v - temperature * ctor.actor_network.get_log_prob(nxt, out.action).clamp(-20.0, 20.0)
        target = batch.reward
        if rl.gamma > 0.0:
            target = batch.reward + torch.full_like(batch.reward, rl.gamma) * next_v * batch.not_terminal
    yield own(F.mse_loss(ctor.q1_network(state, action), target), "q1_network")
    if ctor.q2_network is not None:
        yield own(F.mse_loss(ctor.q2_network(state, action), target), "q2_network")

    out = ctor.actor_network(state)
    min_q = q_min(ctor.q1_network, ctor.q2_network, state, rlt.FeatureData(out.action))
    log_prob = out.log_prob if ctor.backprop_through_log_prob else out.log_prob.detach()
    if ctor.crr_config is not None:
        adv = min_q - ctor.value_network(state.float_features)
        w = ctor.crr_config.get_weight_from_advantage(adv.detach())
        loss = (-(log_prob * w.detach())).mean()
    else:
        loss = (temperature * log_prob - min_q).mean()
    if ctor.action_embedding_kld_weight:
        x = out.squashed_mean if ctor.apply_kld_on_mean else out.action
        m, v = torch.mean(x, axis=0), torch.var(x, axis=0)
        pm, pv = torch.tensor(ctor.action_embedding_mean), torch.tensor(ctor.action_embedding_variance)
        kld = 0.5 * ((v + (m - pm) * (m - pm)) / pv - 1 + pv.log() - v.log()).sum()
        loss = loss + ctor.action_embedding_kld_weight * kld
    yield own(loss, "actor_network")

    if ctor.alpha_optimizer is not None:
        yield own(-(self.log_alpha * (out.log_prob + ctor.target_entropy).detach()).mean(), "log_alpha", "Parameter")
        temperature = self.log_alpha.exp()
        self.entropy_temperature = temperature
    if ctor.value_network is not None:
        target_v = min_q
        if not ctor.logged_action_uniform_prior:
            target_v = min_q - temperature * out.log_prob.clamp(-20.0, 20.0)
        yield own(F.mse_loss(ctor.value_network(state.float_features), target_v.detach()), "value_network")
    yield self.soft_update_result()


def td3(self, ctor, batch, batch_idx):
    rl = ctor.rl
    state, nxt = batch.state, batch.next_state
    with torch.no_grad():
        a = copy.deepcopy(ctor.actor_network)(nxt).action
        noise = (torch.randn_like(a) * ctor.noise_variance).clamp(-ctor.noise_clip, ctor.noise_clip)
        lo, hi = CONTINUOUS_TRAINING_ACTION_RANGE
        a = rlt.FeatureData((a + noise).clamp(lo, hi))
        next_q = copy.deepcopy(ctor.q1_network)(nxt, a)
        if ctor.q2_network is not None:
            next_q = torch.min(next_q, copy.deepcopy(ctor.q2_network)(nxt, a))
        target = batch.reward + rl.gamma * next_q * batch.not_terminal
    yield own(F.mse_loss(ctor.q1_network(state, batch.action), target), "q1_network")
    if ctor.q2_network is not None:
        yield own(F.mse_loss(ctor.q2_network(state, batch.action), target), "q2_network")
    if batch_idx % ctor.delayed_policy_update == 0:
        act = ctor.actor_network(state).action
        yield own(-ctor.q1_network(state, rlt.FeatureData(act)).mean(), "actor_network")
        yield self.soft_update_result()
    else:
        yield None
        yield None


def crr(self, ctor, batch, batch_idx):
    rl = ctor.rl
    state, nxt = batch.state, batch.next_state
    reward = batch.reward + torch.sum(batch.action * boosts(rl, ctor.actions), dim=1, keepdim=True)
    idx = torch.argmax(batch.action, dim=1, keepdim=True)
    with torch.no_grad():
        actor = copy.deepcopy(ctor.actor_network) if ctor.use_target_actor else ctor.actor_network
        probs = pyd.Categorical(logits=actor(nxt).action).probs
        next_q1 = copy.deepcopy(ctor.q1_network)(nxt)
        next_v = (next_q1 * probs).sum(dim=1, keepdim=True)
        if ctor.q2_network is not None:
            next_v = torch.min(next_v, (copy.deepcopy(ctor.q2_network)(nxt) * probs).sum(dim=1, keepdim=True))
        target = reward + rl.gamma * next_v * batch.not_terminal
    q = ctor.q1_network(state)
    yield own(F.mse_loss((q * batch.action).sum(dim=1, keepdim=True), target), "q1_network")
    if ctor.q2_network is not None:
        yield own(F.mse_loss((ctor.q2_network(state) * batch.action).sum(dim=1, keepdim=True), target), "q2_network")
    if batch_idx % ctor.delayed_policy_update == 0:
        dist = pyd.Categorical(logits=ctor.actor_network(state).action)
        adv = q - (q * dist.probs).sum(dim=1, keepdim=True)
        weight = torch.clamp((adv * batch.action).sum(dim=1, keepdim=True).exp(), 0, 20.0)
        log_prob = dist.log_prob(idx.squeeze(1)).unsqueeze(1)
        yield own((-log_prob * weight.detach()).mean(), "actor_network")
    else:
        yield None
    yield from self._calculate_cpes(
        batch, state, nxt, q.detach(), next_q1.detach(), idx, torch.full_like(reward, rl.gamma), batch.not_terminal
    )
    if batch_idx % ctor.delayed_policy_update == 0:
        yield self.soft_update_result()
    else:
        yield None

