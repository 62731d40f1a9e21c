"""Reference definitions: contextual-bandit off-policy estimators and the machinery around them."""
import math
import pickle
import tempfile
from multiprocessing import Pool
from typing import Sequence

import numpy as np
import torch
from reagent.evaluation.cpe import bootstrapped_std_error_of_mean
from reagent.ope.estimators.contextual_bandits_estimators import DMEstimator
from reagent.ope.estimators.estimator import EstimatorResult, EstimatorResults, ResultDiffs, run_evaluation
from reagent.ope.estimators.types import TrainingData
from reagent.ope.utils import Clamper, RunningAverage


# ---- running statistics
def add(self, ctor, value):
    if not math.isnan(value) and not math.isinf(value):
        start = 0.0 if self._count == 0 else self._average
        self._count = self._count + 1
        self._average = start + (float(value) - start) / self._count
    return self


def average_init(self, ctor):
    self._average = ctor.init_val
    self._count = 0 if math.isnan(ctor.init_val) else 1


def average(self, ctor):
    return self._average


def count(self, ctor):
    return self._count


def total(self, ctor):
    return self._average * self._count


def clamp(self, ctor, v):
    if isinstance(v, torch.Tensor):
        return v.clamp(self._min, self._max)
    if isinstance(v, np.ndarray):
        return v.clip(self._min, self._max)
    if isinstance(v, Sequence):
        return [max(self._min, min(self._max, float(i))) for i in v]
    return max(self._min, min(self._max, float(v)))


# ---- estimator results
def metric_data(self, ctor, tgt_rewards, logged_score):
    n = 0.0 if logged_score < 1e-6 else 1.0 / logged_score
    x = tgt_rewards.reshape((tgt_rewards.shape[0],)) if len(tgt_rewards.shape) > 1 else tgt_rewards
    se = bootstrapped_std_error_of_mean(x)
    return torch.mean(x).item() * n, se, se * n


def rmse(self, ctor):
    return self._rmse if self._rmse is not None else (self._diffs ** 2.0).mean().sqrt()


def bias(self, ctor):
    return self._bias if self._bias is not None else self._diffs.mean()


def variance(self, ctor):
    return self._variance if self._variance is not None else self._diffs.var()


def result(log_avg, gt_avg, estimate, weight, metrics):
    return EstimatorResult(
        log_reward=log_avg.average, estimated_reward=estimate, ground_truth_reward=gt_avg.average, estimated_weight=weight,
        estimated_reward_normalized=metrics[0], estimated_reward_std_error=metrics[1], estimated_reward_normalized_std_error=metrics[2],
    )


def ratio(sample, a):
    if sample.log_action_probabilities[a] < 1e-6:
        return 0.0
    return sample.tgt_action_probabilities[a] / sample.log_action_probabilities[a]


# ---- inverse propensity
def ips(self, ctor, input):
    log_avg, tgt_avg, weights, gt_avg = RunningAverage(), RunningAverage(), RunningAverage(), RunningAverage()
    vals = []
    for s in input.samples:
        log_avg.add(s.log_reward)
        if s.log_action.value is None:
            w = 0.0
            v = 0.0
        else:
            w = self._weight_clamper(ratio(s, s.log_action))
            v = s.log_reward * w
        tgt_avg.add(v)
        vals.append(v)
        weights.add(w)
        gt_avg.add(s.ground_truth_reward)
    m = self._compute_metric_data(torch.tensor(vals), log_avg.average)
    return result(log_avg, gt_avg, tgt_avg.total / weights.total if self._weighted else tgt_avg.average, tgt_avg.count, m)


# ---- direct method
def dm(self, ctor, input, train_samples, eval_samples, force_train=False):
    if not self._train_model(train_samples, force_train) and not input.has_model_outputs:
        return None
    log_avg, tgt_avg, gt_avg = RunningAverage(), RunningAverage(), RunningAverage()
    vals = []
    for s in eval_samples:
        log_avg.add(s.log_reward)
        _, scores, probs = self._calc_dm_reward(input.action_space, s)
        v = torch.dot(scores.reshape(-1), probs.reshape(-1)).item()
        tgt_avg.add(v)
        vals.append(v)
        gt_avg.add(s.ground_truth_reward)
    m = self._compute_metric_data(torch.tensor(vals), log_avg.average)
    return result(log_avg, gt_avg, tgt_avg.average, tgt_avg.count, m)


def dr(self, ctor, input, train_samples, eval_samples, force_train=False):
    self._train_model(train_samples, force_train)
    log_avg, tgt_avg, gt_avg = RunningAverage(), RunningAverage(), RunningAverage()
    vals = []
    for s in eval_samples:
        log_avg.add(s.log_reward)
        q, scores, probs = self._calc_dm_reward(input.action_space, s)
        v = torch.dot(scores.reshape(-1), probs.reshape(-1)).item()
        if s.log_action.value is not None:
            v = (s.log_reward - q) * self._weight_clamper(ratio(s, s.log_action)) + v
        tgt_avg.add(v)
        vals.append(v)
        gt_avg.add(s.ground_truth_reward)
    m = self._compute_metric_data(torch.tensor(vals), log_avg.average)
    return result(log_avg, gt_avg, tgt_avg.average, tgt_avg.count, m)


def mid(a, b):
    return None if a is None else (None if b is None else (a + b) / 2)


def folds(self, ctor, input):
    if input.has_model_outputs:
        return self._evaluate(input, input.samples, input.samples, force_train=True)
    log_avg, gt_avg = RunningAverage(), RunningAverage()
    for s in input.samples:
        log_avg.add(s.log_reward)
        gt_avg.add(s.ground_truth_reward)
    order = list(input.samples)
    np.random.shuffle(order)
    half = len(order) // 2
    a, b = order[:half], order[half:]
    x = self._evaluate(input, a, b, force_train=True)
    y = self._evaluate(input, b, a, force_train=True)
    if x is None or y is None:
        return None
    return EstimatorResult(
        log_reward=log_avg.average,
        estimated_reward=(x.estimated_reward + y.estimated_reward) / 2,
        estimated_reward_normalized=mid(x.estimated_reward_normalized, y.estimated_reward_normalized),
        estimated_reward_normalized_std_error=mid(x.estimated_reward_normalized_std_error, y.estimated_reward_normalized_std_error),
        estimated_reward_std_error=mid(x.estimated_reward_std_error, y.estimated_reward_std_error),
        ground_truth_reward=gt_avg.average,
    )


def train(self, ctor, samples, force_train=False):
    t = self._trainer
    if t is None:
        return False
    if t.is_trained and not force_train:
        return True
    n = int(len(samples) * 0.8)
    xs, ys = [], []
    for i in range(n):
        s = samples[i]
        if s.item_feature is None:
            continue
        xs.append(torch.cat((torch.tensor(s.log_action.value, dtype=torch.float).flatten(), s.item_feature.flatten())))
        ys.append(s.log_reward)
    if len(xs) == 0:
        return False
    x = torch.stack(xs)
    y = torch.tensor(ys, dtype=torch.float)
    vxs, vys = [], []
    for i in range(n, len(samples)):
        s = samples[i]
        if s.item_feature is None:
            continue
        vxs.append(torch.cat((torch.tensor(s.log_action.value, dtype=torch.float).flatten(), s.item_feature.flatten())))
        vys.append(s.log_reward)
    if len(vxs) == 0:
        vx, vy = x, y
    else:
        vx, vy = torch.stack(vxs), torch.tensor(vys, dtype=torch.float)
    t.train(TrainingData(x, y, None, vx, vy, None))
    return True


def dm_reward(self, ctor, action_space, sample):
    if sample.model_outputs is not None:
        return (
            sample.model_outputs.tgt_reward_from_log_action,
            torch.tensor(sample.model_outputs.tgt_rewards, dtype=torch.float),
            torch.tensor(sample.tgt_action_probabilities._values, dtype=torch.float),
        )
    t = self._trainer
    if t is None or not t.is_trained:
        return 0.0, torch.zeros(len(action_space)), torch.zeros(len(action_space))
    f = sample.item_feature.flatten()
    feats, probs = [], []
    at = -1
    for a in action_space:
        if at < 0 and a == sample.log_action:
            at = len(feats)
        feats.append(torch.cat((torch.tensor(a.value, dtype=torch.float).flatten(), f)))
        probs.append(sample.tgt_action_probabilities[a])
    p = t.predict(torch.stack(feats).float(), device=self._device)
    return p.scores[at].item(), p.scores, torch.tensor(probs, dtype=torch.float)


# ---- switch
def rmax(self, ctor, input):
    m = float("-inf")
    for s in input.samples:
        _, scores, probs = self._calc_dm_reward(input.action_space, s)
        m = max(m, max(s.log_reward, torch.max(scores).item()))
    return m


def weights(self, ctor, input, eval_samples):
    n, k = len(eval_samples), len(input.action_space)
    ws, rs, est, est_logged = torch.ones((n, k)), torch.zeros((n, 1)), torch.zeros((n, k)), torch.zeros((n, 1))
    actions, exp_rmax, props = torch.zeros((n, k)), torch.zeros((n, k)), torch.zeros((n, k))
    log_avg, gt_avg = RunningAverage(), RunningAverage()
    top = self._estimate_rmax(input) if self._rmax is None else self._rmax
    for i, s in enumerate(eval_samples):
        q, scores, probs = self._calc_dm_reward(input.action_space, s)
        for a in input.action_space:
            ws[i, a] = self._weight_clamper(ratio(s, a))
            props[i, a] = s.tgt_action_probabilities[a]
            exp_rmax[i, a] = s.tgt_action_probabilities[a] * top
            actions[i, a] = float(a == s.log_action)
        rs[i, 0] = s.log_reward
        est[i] = scores.reshape(-1)
        est_logged[i] = q
        log_avg.add(s.log_reward)
        gt_avg.add(s.ground_truth_reward)
    return actions, ws, rs, est, est_logged, props, exp_rmax, log_avg, gt_avg


def switch_values(self, ctor, logged_rewards, weights, actions, threshold, est, est_logged, props):
    w = (weights * actions).sum(dim=1, keepdim=True)
    return logged_rewards * w * (w <= threshold).float() + (est * props * (weights > threshold).float()).sum(dim=1, keepdim=True)


def switch_dr_values(self, ctor, logged_rewards, weights, actions, threshold, est, est_logged, props):
    w = (weights * actions).sum(dim=1, keepdim=True)
    dr = w * (logged_rewards - est_logged) + (props * est).sum(dim=1, keepdim=True)
    return dr * (w <= threshold).float() + (est * props * (weights > threshold).float()).sum(dim=1, keepdim=True)


def switch(self, ctor, input, train_samples, eval_samples, force_train=False, **kwargs):
    self._train_model(train_samples, force_train)
    base = kwargs["exp_base"] if "exp_base" in kwargs else 1.5
    n = kwargs["candidates"] if "candidates" in kwargs else 21
    actions, ws, rs, est, est_logged, props, exp_rmax, log_avg, gt_avg = self._calc_weight_reward_tensors(input, eval_samples)
    lo, hi = float(torch.min(ws).item()), float(torch.max(ws).item())
    cands = [lo + ((base ** x) / (base ** (n - 1))) * (hi - lo) for x in range(n)]
    tau, best = lo - 1e-6, float("inf")
    for c in cands:
        v = self._calc_estimated_values(rs, ws, actions, c, est, est_logged, props)
        var = (1.0 / (v.shape[0] ** 2)) * torch.sum((v - torch.mean(v)) ** 2).item()
        b = torch.mean(torch.sum(exp_rmax * (ws > c).float(), dim=1, keepdim=True)).item()
        score = var + b * b
        if score < best:
            tau = c
            best = score
    v = self._calc_estimated_values(rs, ws, actions, tau, est, est_logged, props)
    m = self._compute_metric_data(v.detach(), log_avg.average)
    return result(log_avg, gt_avg, torch.mean(v).item(), float(v.shape[0]), m)


# ---- experiment runner
def append(self, ctor, result):
    if not (math.isnan(result.estimated_reward) or math.isinf(result.estimated_reward)):
        self.results.append(EstimatorResult(
            log_reward=result.log_reward, estimated_reward=result.estimated_reward,
            ground_truth_reward=result.ground_truth_reward if result.ground_truth_reward is not None else 0.0,
            estimated_weight=result.estimated_weight,
        ))


def report(self, ctor):
    e = torch.tensor([r.estimated_reward for r in self.results], dtype=torch.double)
    l = torch.tensor([r.log_reward for r in self.results], dtype=torch.double)
    g = torch.tensor([r.ground_truth_reward if r.ground_truth_reward is not None else 0.0 for r in self.results], dtype=torch.double)
    return (
        l.mean().item(), e.mean().item(), g.mean().item(), ResultDiffs(e - g), ResultDiffs(e - l),
        torch.tensor([float(r.estimated_weight) for r in self.results]).mean().item(),
    )


def worker(file_name):
    try:
        with open(file_name, "rb") as fp:
            todo = pickle.load(fp)
    except Exception as err:
        return None
    out = {}
    for estimators, input in todo:
        for e in estimators:
            name = repr(e)
            if name not in out:
                out[name] = []
            try:
                out[name].append(e.evaluate(input))
            except Exception as err:
                pass
    return out


def tasks(self, ctor):
    self._experiments = ctor.experiments
    self._tasks = None
    if ctor.max_num_workers > 0:
        self._tasks = [[] for _ in range(ctor.max_num_workers)]
        for i, x in enumerate(ctor.experiments):
            self._tasks[i % ctor.max_num_workers].append(x)


def evaluate_all(self, ctor):
    out = {}
    if self._tasks is None:
        for estimators, input in self._experiments:
            for e in estimators:
                name = repr(e)
                if name in out:
                    r = out[name]
                else:
                    r = EstimatorResults()
                    out[name] = r
                r.append(e.evaluate(input))
        return out
    files, names = [], []
    for task in self._tasks:
        fp = tempfile.NamedTemporaryFile()
        pickle.dump(task, fp, protocol=pickle.HIGHEST_PROTOCOL)
        fp.flush()
        files.append(fp)
        names.append(fp.name)
    with Pool(len(names)) as pool:
        done = pool.map(run_evaluation, names)
    for fp in files:
        fp.close()
    for part in done:
        if part is None:
            continue
        for name, rs in part.items():
            if name in out:
                r = out[name]
            else:
                r = EstimatorResults()
                out[name] = r
            for x in rs:
                r.append(x)
    return out


def built(self, ctor):
    self._device = ctor.device
    self._trainer = ctor.trainer
    self._weighted = ctor.weighted
    self._rmax = ctor.rmax
    self._weight_clamper = Clamper() if ctor.weight_clamper is None else ctor.weight_clamper


def clamper(self, ctor):
    self._min = ctor.min_v
    self._max = ctor.max_v
    if self._max <= self._min:
        raise ValueError("range")
    return self
