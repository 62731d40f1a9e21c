"""Reference definitions: counterfactual policy estimators."""
import itertools
from collections import Counter

import numpy as np
import scipy as sp
import torch
import torch.nn.functional as F
from reagent.evaluation.cpe import CpeDetails, CpeEstimate, CpeEstimateSet, bootstrapped_std_error_of_mean
from reagent.evaluation.doubly_robust_estimator import DoublyRobustHP


def bootstrap(data, sample_percent=0.25, num_samples=1000):
    if isinstance(data, torch.Tensor):
        data = data.cpu().numpy()
    n = int(sample_percent * len(data))
    return np.std([np.mean(np.random.choice(data, size=n, replace=True)) for i in range(num_samples)])


def estimate_of(values, scale, hp):
    m = float(torch.mean(values))
    se = bootstrapped_std_error_of_mean(values.squeeze(), sample_percent=hp.bootstrap_sample_percent, num_samples=hp.bootstrap_num_samples)
    return CpeEstimate(raw=m, normalized=m * scale, raw_std_error=se, normalized_std_error=se * scale)


def single_step(self, ctor, edp, hp=None):
    hp = hp or DoublyRobustHP()
    logged = float(torch.mean(edp.logged_rewards))
    scale = 0.0 if logged < 1e-6 else 1.0 / logged
    w = torch.sum(edp.model_propensities * edp.action_mask, dim=1, keepdim=True) / edp.logged_propensities
    if edp.model_rewards is None:
        dm = torch.zeros([edp.model_propensities.shape[0], 1])
    else:
        dm = torch.sum(edp.model_propensities * edp.model_rewards, dim=1, keepdim=True)
    ips = w * edp.logged_rewards
    dr = w * (edp.logged_rewards - edp.model_rewards_for_logged_action) + dm
    return estimate_of(dm, scale, hp), estimate_of(ips, scale, hp), estimate_of(dr, scale, hp)


def split(self, ctor, edp, frac_train=0.4, frac_valid=0.1):
    from reagent.evaluation.doubly_robust_estimator import TrainValidEvalData

    n = edp.model_propensities.shape[0]
    a, b = int(frac_train * n), int((frac_train + frac_valid) * n)
    order = np.random.permutation(n)
    tr, va, ev = order[0:a], order[a:b], order[b:]
    taken = torch.max(edp.action_mask, dim=1, keepdim=True)[1].float()
    return TrainValidEvalData(
        contexts_dict={"train": edp.contexts[tr], "valid": edp.contexts[va], "eval": edp.contexts[ev]},
        model_propensities_dict={"train": edp.model_propensities[tr], "valid": edp.model_propensities[va], "eval": edp.model_propensities[ev]},
        actions_logged_dict={"train": taken[tr], "valid": taken[va], "eval": taken[ev]},
        action_mask_dict={"train": edp.action_mask[tr], "valid": edp.action_mask[va], "eval": edp.action_mask[ev]},
        logged_rewards_dict={"train": edp.logged_rewards[tr], "valid": edp.logged_rewards[va], "eval": edp.logged_rewards[ev]},
        model_rewards_dict={"train": edp.model_rewards[tr], "valid": edp.model_rewards[va], "eval": edp.model_rewards[ev]},
        model_rewards_for_logged_action_dict={
            "train": edp.model_rewards_for_logged_action[tr], "valid": edp.model_rewards_for_logged_action[va],
            "eval": edp.model_rewards_for_logged_action[ev],
        },
        logged_propensities_dict={"train": edp.logged_propensities[tr], "valid": edp.logged_propensities[va], "eval": edp.logged_propensities[ev]},
        num_examples_dict={"train": a, "valid": b - a, "eval": n - b},
    )


def score(self, ctor, metric_name, edp):
    dm, ips, dr = self.doubly_robust_estimator.estimate(edp)
    weighted = self.weighted_sequential_doubly_robust_estimator
    return CpeEstimateSet(
        direct_method=dm, inverse_propensity=ips, doubly_robust=dr,
        sequential_doubly_robust=self.sequential_doubly_robust_estimator.estimate(edp),
        weighted_doubly_robust=weighted.estimate(edp, num_j_steps=1, whether_self_normalize_importance_weights=True),
        magic=weighted.estimate(edp, num_j_steps=25, whether_self_normalize_importance_weights=True),
    )


def post_training(self, ctor, edp):
    d = CpeDetails()
    d.reward_estimates = self.score_cpe("Reward", edp)
    if ctor.metrics_to_score is not None and edp.logged_metrics is not None and ctor.action_names is not None:
        for i, m in enumerate(ctor.metrics_to_score):
            d.metric_estimates[m] = self.score_cpe(m, edp.set_metric_as_reward(i, len(ctor.action_names)))
    if ctor.action_names is not None:
        if edp.optimal_q_values is not None:
            mean = edp.optimal_q_values.mean(dim=0)
            d.q_value_means = {a: float(mean[i]) for i, a in enumerate(ctor.action_names)}
            std = edp.optimal_q_values.std(dim=0)
            d.q_value_stds = {a: float(std[i]) for i, a in enumerate(ctor.action_names)}
        if edp.eval_action_idxs is not None:
            d.action_distribution = {
                a: float((edp.eval_action_idxs == i).sum()) / edp.eval_action_idxs.shape[0] for i, a in enumerate(ctor.action_names)
            }
    d.mc_loss = float(F.mse_loss(edp.logged_values, edp.model_values_for_logged_action))
    self.notify_observers(cpe_details=d)
    return d


def metric_names(values):
    return [] if values is None else sorted(list(values.keys()))


def filled(self):
    r = self
    for name, value in self._asdict().items():
        if value is None:
            r = r._replace(**{name: CpeEstimate(raw=0.0, normalized=0.0, raw_std_error=0.0, normalized_std_error=0.0)})
    return r


def huber(label, output):
    if abs(label - output) > 1:
        return abs(label - output) - 0.5
    return 0.5 * (label - output) * (label - output)


def distribution_error(self, ctor, actions, target, actual):
    if not target:
        return None
    total = 0
    for i, a in enumerate(actions):
        total += (target[i] - actual[a]) ** 2
    return total / len(actions)


# sequential ------------------------------------------------------------------

def sequential(self, ctor, edp):
    r = edp.logged_rewards.squeeze()
    v = torch.sum(edp.model_propensities * edp.model_values, dim=1)
    q = torch.sum(edp.model_values * edp.action_mask, dim=1)
    w = torch.sum(edp.model_propensities * edp.action_mask, dim=1) / edp.logged_propensities.squeeze()
    n = edp.logged_rewards.shape[0]
    drs, values = [], []
    before = -1
    for i in range(n):
        if i == n - 1 or edp.mdp_id[i] != edp.mdp_id[i + 1]:
            dr, value = 0.0, 0.0
            for j in range(i, before, -1):
                dr = v[j] + w[j] * (r[j] + ctor.gamma * dr - q[j])
                value = value * ctor.gamma + r[j]
            drs.append(float(dr))
            values.append(float(value))
            before = i
    if len(drs) == 0:
        raise RuntimeError()
    drs = np.array(drs)
    m, se = float(np.mean(drs)), bootstrapped_std_error_of_mean(drs)
    logged = np.mean(np.array(values))
    if logged < 1e-6:
        return CpeEstimate(raw=m, normalized=0.0, raw_std_error=se, normalized_std_error=0.0)
    return CpeEstimate(raw=m, normalized=m / logged, raw_std_error=se, normalized_std_error=se / logged)


def normalized(w, self_normalize):
    if self_normalize:
        total = np.sum(w, axis=0)
        none = np.where(total == 0.0)[0]
        total[none] = len(w)
        w[:, none] = 1.0
        w /= total
        return w
    w /= w.shape[0]
    return w


def step_return(r, discounts, w, w_before, v, q, j):
    length = len(r[0])
    j = int(min(j, length - 1))
    dw, dwb = discounts * w, discounts * w_before
    rewards = np.sum(dw[:, : j + 1] * r[:, : j + 1], axis=1)
    if j < length - 1:
        tail = dwb[:, j + 1] * v[:, j + 1]
    else:
        tail = np.zeros([len(r)])
    variate = np.sum(dw[:, : j + 1] * q[:, : j + 1] - dwb[:, : j + 1] * v[:, : j + 1], axis=1)
    return rewards + tail - variate


def bounds(x, confidence):
    m, se = np.mean(x), sp.stats.sem(x)
    h = se * sp.stats.t._ppf((1 + confidence) / 2.0, len(x) - 1)
    return m - h, m + h


def quadratic(x, error):
    return np.dot(np.dot(x, error), x.T)


def point(self, ctor, j_steps, num_j_steps, returns, infinite, trajectories):
    lo, hi = self.confidence_bounds(infinite, 0.9)
    bias = np.zeros([num_j_steps])
    below = np.where(returns < lo)[0]
    bias[below] = lo - returns[below]
    above = np.where(returns > hi)[0]
    bias[above] = returns[above] - hi
    error = np.cov(trajectories) + bias.T * bias
    x = np.zeros([len(j_steps)])
    res = sp.optimize.minimize(
        quadratic, x, args=error, constraints={"type": "eq", "fun": lambda z: np.sum(z) - 1.0}, bounds=[(0, 1) for _ in range(x.shape[0])],
    )
    return float(np.dot(np.array(res.x), returns))


def trajectories(mdp_ids, actions, rewards, logged, target, q):
    n = len(target[0])
    last = np.zeros(mdp_ids.shape[0])
    for i in range(0, mdp_ids.shape[0]):
        if i + 1 == mdp_ids.shape[0] or mdp_ids[i, 0] != mdp_ids[i + 1, 0]:
            last[i] = 1
    ends = np.nonzero(last)[0]
    if len(last) - 1 not in ends:
        ends = np.append(ends, len(last) - 1)
    episodes = []
    at = 0
    for e in ends:
        episodes.append(np.arange(at, e + 1))
        at = e + 1

    def pad(x, fill):
        return np.array(list(itertools.zip_longest(*[x[t] for t in episodes], fillvalue=fill))).swapaxes(0, 1)

    return pad(actions, np.zeros([n])), pad(rewards, 0), pad(logged, 1), pad(target, np.zeros([n])), pad(q, np.zeros([n]))


def shifted(w, n):
    return np.hstack([np.ones([n, 1]) * 1.0 / n, w[:, :-1]])


def weighted(self, ctor, edp, num_j_steps, self_normalize):
    a, r, logged, target, q = self.transform_to_equal_length_trajectories(
        edp.mdp_id, edp.action_mask.cpu().numpy(), edp.logged_rewards.cpu().numpy().flatten(),
        edp.logged_propensities.cpu().numpy().flatten(), edp.model_propensities.cpu().numpy(), edp.model_values.cpu().numpy(),
    )
    n, length = a.shape[0], a.shape[1]
    steps = [float("inf")]
    if num_j_steps > 1:
        steps.append(-1)
    if num_j_steps > 2:
        every = length // (num_j_steps - 1)
        steps.extend([i * every for i in range(1, num_j_steps - 1)])
    pi = np.sum(target * a, axis=2)
    qa = np.sum(q * a, axis=2)
    v = np.sum(target * q, axis=2)
    w = self.normalize_importance_weights(np.cumprod(pi / logged, axis=1), self_normalize)
    discounts = np.logspace(start=0, stop=length - 1, num=length, base=ctor.gamma)
    paths = []
    for s in steps:
        paths.append(self.calculate_step_return(r, discounts, w, shifted(w, n), v, qa, s))
    paths = np.array(paths)
    returns = np.sum(paths, axis=1)
    if len(returns) == 1:
        score, se = returns[0], 0.0
    else:
        infinite = []
        subsets = int(min(n / 2, 25))
        every = n / subsets
        for i in range(subsets):
            t = np.arange(int(i * every), int((i + 1) * every))
            ws = self.normalize_importance_weights(np.cumprod(pi[t] / logged[t], axis=1), self_normalize)
            infinite.append(np.sum(self.calculate_step_return(r[t], discounts, ws, shifted(ws, len(t)), v[t], qa[t], float("inf"))))
        score = self.compute_weighted_doubly_robust_point_estimate(steps, num_j_steps, returns, infinite, paths)
        k = int(0.5 * subsets)
        means = []
        for _ in range(50):
            pick = np.random.choice(num_j_steps, k, replace=False)
            pick.sort()
            means.append(self.compute_weighted_doubly_robust_point_estimate(
                j_steps=[steps[i] for i in pick], num_j_steps=k, j_step_returns=returns[pick], infinite_step_returns=infinite,
                j_step_return_trajectories=paths[pick],
            ))
        se = np.std(means)
    value = np.nanmean(np.sum(r * discounts, axis=1))
    if value < 1e-6:
        return CpeEstimate(raw=score, normalized=0.0, raw_std_error=se, normalized_std_error=0.0)
    return CpeEstimate(raw=score, normalized=score / value, raw_std_error=se, normalized_std_error=se / value)


def logged_actions(self, ctor, arr):
    seen = Counter()
    for actions in arr:
        seen.update(Counter(torch.max(actions, dim=1)[1].numpy()))
    total = 1.0 * sum(seen.values())
    names = list(enumerate(self.action_names))
    return {name: seen[i] / total for i, name in enumerate(self.action_names)}, {name: seen[i] for i, name in enumerate(self.action_names)}


def as_tensor(x, dtype):
    if x is None:
        return None
    if not isinstance(x, torch.Tensor):
        x = torch.tensor(x)
    if dtype is not None:
        x = x.type(dtype)
    return x
