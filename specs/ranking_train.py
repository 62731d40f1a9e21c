"""Reference definitions: trainers of ranking models."""
import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from reagent import types as rlt
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, per_symbol_to_per_seq_log_probs
from reagent.parameters_seq2slate import IPSClampMethod
from reagent.torch_utils import gather
from reagent.training.ranking.helper import ips_clamp
from reagent.training.ranking.seq2slate_sim_trainer import _load_reward_net, swap_dist
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from reagent.training.reward_network_trainer import LossFunction, _get_loss_function


def clamped(impt_smpl, rule):
    if not rule:
        return impt_smpl
    if rule.clamp_method == IPSClampMethod.UNIVERSAL:
        return torch.clamp(impt_smpl, 0, rule.clamp_max)
    elif rule.clamp_method == IPSClampMethod.AGGRESSIVE:
        return torch.where(impt_smpl > rule.clamp_max, torch.zeros_like(impt_smpl), impt_smpl)


# policy gradient -----------------------------------------------------------------

def reinforce_init(self, ctor):
    self.seq2slate_net = ctor.seq2slate_net
    self.parameters = ctor.parameters
    self.policy_gradient_interval = ctor.policy_gradient_interval
    self.minibatch_size = ctor.minibatch_size
    self.minibatch = 0
    self.baseline_net = ctor.baseline_net
    self.baseline_warmup_num_batches = ctor.baseline_warmup_num_batches
    self.rl_opt = ctor.policy_optimizer.make_optimizer(ctor.seq2slate_net.parameters())
    if ctor.baseline_net:
        self.baseline_opt = ctor.baseline_optimizer.make_optimizer(ctor.baseline_net.parameters())
    return self


def weights(self, ctor, model_propensities, logged_propensities):
    w = model_propensities / logged_propensities.reshape(-1, 1)
    return w, ips_clamp(w, self.parameters.ips_clamp)


def reinforce(self, ctor, batch):
    self.minibatch += 1
    n = batch.state.float_features.shape[0]
    reward = batch.slate_reward
    if self.baseline_net:
        guess = self.baseline_net(batch)
        baseline_loss = torch.sum((guess - reward) ** 2) / n
        self.baseline_opt.zero_grad()
        baseline_loss.backward()
        self.baseline_opt.step()
    else:
        guess = torch.zeros_like(reward)
        baseline_loss = torch.zeros(1)
    prob = torch.exp(self.seq2slate_net(batch, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs)
    advantage = reward - guess.detach()
    w, cw = self._compute_impt_smpl(prob, batch.tgt_out_probs)
    loss = torch.mean(-cw * advantage)
    # the policy waits for the baseline to warm up, and steps once per policy_gradient_interval minibatches
    if self.baseline_net is None or self.minibatch >= self.baseline_warmup_num_batches:
        loss.backward()
        if self.minibatch % self.policy_gradient_interval == 0:
            self.rl_opt.step()
            self.rl_opt.zero_grad()
    self.notify_observers(
        train_ips_score=torch.tensor(torch.mean(-w * reward).detach().cpu().numpy()).reshape(1),
        train_clamped_ips_score=torch.tensor(torch.mean(-cw * reward).detach().cpu().numpy()).reshape(1),
        train_baseline_loss=torch.tensor(baseline_loss.detach().cpu().numpy().item()).reshape(1),
        train_logged_slate_rank_probs=torch.FloatTensor(prob.detach().cpu().numpy()),
        train_ips_ratio=w, train_clamped_ips_ratio=cw, train_advantages=advantage.detach().cpu().numpy())


# supervised ------------------------------------------------------------------------

def pairwise_init(self, ctor):
    self.seq2slate_net = ctor.seq2slate_net
    self.minibatch = 0
    self.optimizer = ctor.policy_optimizer.make_optimizer(ctor.seq2slate_net.parameters())
    self.log_softmax = nn.LogSoftmax(dim=1)
    self.kl_loss = nn.KLDivLoss(reduction="batchmean")
    return self


def pairwise(self, ctor, batch):
    scores = self.seq2slate_net(batch, mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores
    loss = self.kl_loss(self.log_softmax(scores), batch.position_reward)
    self.optimizer.zero_grad()
    loss.backward()
    self.optimizer.step()
    self.minibatch += 1
    self.notify_observers(cross_entropy_loss=loss.detach())
    return {"cross_entropy_loss": loss.detach()}


def forced_init(self, ctor):
    self.seq2slate_net = ctor.seq2slate_net
    self.policy_gradient_interval = ctor.policy_gradient_interval
    self.minibatch = 0
    self.optimizer = ctor.policy_optimizer.make_optimizer(ctor.seq2slate_net.parameters())
    self.kl_div_loss = nn.KLDivLoss(reduction="batchmean")
    return self


def forced(self, ctor, batch):
    self.minibatch += 1
    logs = self.seq2slate_net(batch, mode=Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs
    loss = self.kl_div_loss(logs, self._transform_label(batch.optim_tgt_out_idx))
    loss.backward()
    if self.minibatch % self.policy_gradient_interval == 0:
        self.optimizer.step()
        self.optimizer.zero_grad()
    return logs.detach(), loss.detach().cpu().numpy()


def one_hot_label(self, ctor, idx):
    return F.one_hot(idx, self.seq2slate_net.max_src_seq_len + 2).float()


def soft_init(self, ctor):
    self.seq2slate_net = ctor.seq2slate_net
    self.parameters = ctor.parameters
    self.minibatch = 0
    self.optimizer = ctor.policy_optimizer.make_optimizer(ctor.seq2slate_net.parameters())
    self.kl_div_loss = nn.KLDivLoss(reduction="none")
    return self


def soft_reward(self, ctor, batch):
    logs = self.seq2slate_net(batch, mode=Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs
    prob = torch.exp(per_symbol_to_per_seq_log_probs(logs, batch.tgt_out_idx))
    if self.parameters.on_policy:
        w = prob / prob.detach()
    else:
        w = ips_clamp(prob / batch.tgt_out_probs, self.parameters.ips_clamp)
    n, length = batch.tgt_out_idx.shape
    each = torch.sum(self.kl_div_loss(logs, self._transform_label(batch.tgt_out_idx)), dim=2) * batch.position_reward
    # position k (from 1) is discounted by log(k + 1)
    slate = torch.sum(each / torch.log(torch.arange(1, 1 + length).float() + 1.0), dim=1, keepdim=True)
    loss = torch.sum(w * slate) / n
    self.optimizer.zero_grad()
    loss.backward()
    self.optimizer.step()
    self.minibatch += 1
    return {"per_symbol_log_probs": logs.detach(), "sl": loss.detach().cpu().numpy()}


# simulation ----------------------------------------------------------------------------

def load_rewards(name_and_path, use_gpu):
    out = {}
    for name, path in name_and_path.items():
        out[name] = torch.jit.load(path)
    return out


def inversions(idx_):
    idx = idx_.copy()
    count = 0
    for j in range(len(idx)):
        for i in range(1, len(idx) - j):
            if idx[i - 1] > idx[i]:
                count += 1
                idx[i - 1], idx[i] = idx[i], idx[i - 1]
    return count


def skipped(idx):
    return np.sum(x - i for i, x in enumerate(idx))


def distance(idx):
    from reagent.training.ranking.seq2slate_sim_trainer import swap_dist_in_slate, swap_dist_out_slate
    return swap_dist_in_slate(idx) + swap_dist_out_slate(idx)


def sim_init(self, ctor):
    self.sim_param = ctor.parameters.simulation
    self.reward_name_and_net = {}
    self.parameters = ctor.parameters
    self.MAX_DISTANCE = ctor.seq2slate_net.max_src_seq_len * (ctor.seq2slate_net.max_src_seq_len - 1) / 2
    self.trainer = Seq2SlateTrainer(
        ctor.seq2slate_net, ctor.minibatch_size, ctor.parameters, baseline_net=ctor.baseline_net, baseline_warmup_num_batches=ctor.baseline_warmup_num_batches,
        use_gpu=ctor.use_gpu, policy_optimizer=ctor.policy_optimizer, baseline_optimizer=ctor.baseline_optimizer,
        policy_gradient_interval=ctor.policy_gradient_interval, print_interval=ctor.print_interval)
    self.seq2slate_net = self.trainer.seq2slate_net
    self.baseline_net = self.trainer.baseline_net
    return self


def simulated(self, ctor, x):
    ok = False
    while not ok:
        r = self.seq2slate_net(x, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=self.seq2slate_net.max_tgt_seq_len, greedy=False)
        idx = r.ranked_tgt_out_idx
        action = idx - 2
        if torch.all(action >= 0):
            ok = True
    if not self.reward_name_and_net:
        self.reward_name_and_net = _load_reward_net(self.sim_param.reward_name_path, self.use_gpu)
    slate = gather(x.src_seq.float_features, action)
    reward = torch.zeros(idx.shape[0], 1)
    for name, net in self.reward_name_and_net.items():
        y = net(x.state.float_features, x.src_seq.float_features, slate, x.src_src_mask, idx)
        reward = reward + self.sim_param.reward_name_weight[name] * y ** self.sim_param.reward_name_power[name]
    limit = self.sim_param.reward_clamp
    if limit is not None:
        reward = torch.clamp(reward, min=limit.clamp_min, max=limit.clamp_max)
    if self.sim_param.distance_penalty is not None:
        far = torch.tensor([swap_dist(a.tolist()) for a in action]).unsqueeze(1).float()
        reward = reward + self.sim_param.distance_penalty * (self.MAX_DISTANCE - far)
    return rlt.PreprocessedRankingInput.from_input(
        state=x.state.float_features, candidates=x.src_seq.float_features, device=self.device, action=action, slate_reward=reward,
        logged_propensities=r.ranked_per_seq_probs)


def sim_train(self, ctor, batch):
    return self.trainer.train(self._simulated_training_input(batch))


# reward models ---------------------------------------------------------------------------

def reward_loss(kind, limit):
    how = "mean" if limit is None else "none"
    if kind == LossFunction.MSE:
        f = torch.nn.MSELoss(reduction=how)
    elif kind == LossFunction.SmoothL1Loss:
        f = torch.nn.SmoothL1Loss(reduction=how)
    elif kind == LossFunction.L1Loss:
        f = torch.nn.L1Loss(reduction=how)
    elif kind == LossFunction.BCELoss:
        f = torch.nn.BCELoss(reduction=how)
    if limit is None:
        return f

    def wrapped(pred, target):
        loss = f(pred, target)
        if pred.requires_grad:
            loss = loss[target <= limit]
        return torch.mean(loss)
    return wrapped


def reward_init(self, ctor):
    self.reward_net = ctor.reward_net
    self.minibatch = 0
    self.opt = ctor.optimizer.make_optimizer(ctor.reward_net.parameters())
    self.loss_type = ctor.loss_type
    self.loss_fn = _get_loss_function(ctor.loss_type, ctor.reward_ignore_threshold)
    self.reward_ignore_threshold = ctor.reward_ignore_threshold
    return self


def reward_train(self, ctor, batch):
    target = batch.slate_reward if isinstance(batch, rlt.PreprocessedRankingInput) else batch.reward
    loss = self.loss_fn(self.reward_net(batch).predicted_reward, target)
    self.opt.zero_grad()
    loss.backward()
    self.opt.step()
    self.minibatch += 1
    return loss.detach()
