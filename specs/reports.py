"""Reference definitions: reported numbers."""
import math
from collections import deque
from math import ceil

import numpy as np
import torch
from reagent.tensorboardX import SummaryWriterContext
from reagent.training.loss_reporter import BatchStats, LossReporter, StatsByAction, merge_tensor_namedtuple_list
from reagent.workflow.training_reports import ActorCriticTrainingReport, DQNTrainingReport, ParametricDQNTrainingReport, SlateQTrainingReport


def recent_means(values, min_window_size):
    return {k: np.mean(v[-max(min_window_size, int(ceil(0.1 * len(v)))):]) for k, v in values.items()}


def window(arr, window_size, num_entries):
    if len(arr) > 0:
        return np.mean(np.array(arr[max(0, len(arr) - window_size):]), axis=0)
    return float("nan") if num_entries == 1 else [float("nan")] * num_entries


def cpe_scalars(self, ctor, metric_name):
    def shown(x):
        return 0.0 if x is None or math.isnan(x) else x

    for name, value in [
        ("CPE/{}/Direct_Method_Reward".format(metric_name), self.direct_method.normalized),
        ("CPE/{}/IPS_Reward".format(metric_name), self.inverse_propensity.normalized),
        ("CPE/{}/Doubly_Robust_Reward".format(metric_name), self.doubly_robust.normalized),
        ("CPE/{}/Sequential_Doubly_Robust".format(metric_name), self.sequential_doubly_robust.normalized),
        ("CPE/{}/Weighted_Sequential_Doubly_Robust".format(metric_name), self.weighted_doubly_robust.normalized),
        ("CPE/{}/MAGIC".format(metric_name), self.magic.normalized),
    ]:
        SummaryWriterContext.add_scalar(name, shown(value))


def cpe_details_scalars(self, ctor):
    self.reward_estimates.log_to_tensorboard("Reward")
    for name, estimates in self.metric_estimates.items():
        estimates.log_to_tensorboard(name)


def cpe_details_log(self, ctor):
    self.reward_estimates.log()
    for metric in self.metric_estimates.keys():
        self.metric_estimates[metric].log()


# loss reporter -----------------------------------------------------------------

def summary(self, actions):
    if actions:
        for val, key in [(self.logged_actions, "actions/logged"), (self.model_action_idxs, "actions/model")]:
            if val is None:
                continue
            for i, action in enumerate(actions):
                SummaryWriterContext.add_scalar("{}/{}".format(key, action), (val == i).sum().item())
    for val, key in [
        (self.td_loss, "td_loss"),
        (self.imitator_loss, "imitator_loss"),
        (self.reward_loss, "reward_loss"),
        (self.logged_propensities, "propensities/logged"),
        (self.logged_rewards, "reward/logged"),
        (self.logged_values, "value/logged"),
        (self.model_values_on_logged_actions, "value/model_logged_action"),
    ]:
        if val is None:
            continue
        self._log_histogram_and_mean(key, val)
    for val, key in [(self.model_propensities, "propensities/model"), (self.model_rewards, "reward/model"), (self.model_values, "value/model")]:
        if val is None:
            continue
        if (len(val.shape) == 1 or (len(val.shape) == 2 and val.shape[1] == 1)) and not actions:
            self._log_histogram_and_mean(key, val)
        elif len(val.shape) == 2 and val.shape[1] == len(actions):
            for i, action in enumerate(actions):
                self._log_histogram_and_mean("{}/{}".format(key, action), val[:, i])
        else:
            raise ValueError(key)


def histogram_and_mean(self, log_key, val):
    SummaryWriterContext.add_histogram(log_key, val)
    SummaryWriterContext.add_scalar("{}/mean".format(log_key), val.mean())


def charts(action_names):
    if not action_names:
        return
    chart = SummaryWriterContext.add_custom_scalars_multilinechart
    chart(["propensities/model/{}/mean".format(a) for a in action_names], category="propensities", title="model")
    chart(["propensities/logged/{}/mean".format(a) for a in action_names], category="propensities", title="logged")
    chart(["actions/logged/{}".format(a) for a in action_names], category="actions", title="logged")
    chart(["actions/model/{}".format(a) for a in action_names], category="actions", title="model")


def by_action_init(self, ctor):
    self.stats = {a: [] for a in ctor.actions}
    return self


def reporter_init(self, ctor):
    names = ctor.action_names or []
    self.action_names = names
    self.running_reward = deque(maxlen=int(1e6))
    self.td_loss, self.reward_loss, self.imitator_loss, self.logged_action_q_value = [], [], [], []
    self.logged_action_counts = {a: 0 for a in names}
    self.model_values = StatsByAction(names)
    self.model_value_stds = StatsByAction(names)
    self.model_action_counts = StatsByAction(names)
    self.model_action_counts_cumulative = {a: 0 for a in names}
    self.model_action_distr = StatsByAction(names)
    self.incoming_stats = []
    self.loss_report_interval = 100
    BatchStats.add_custom_scalars(ctor.action_names)
    return self


def report(self, ctor, **kwargs):
    def prepared(v):
        if v is None:
            return None
        if not isinstance(v, torch.Tensor):
            v = torch.tensor(v)
        if len(v.shape) == 0:
            v = v.reshape(1)
        return v.detach()

    self.incoming_stats.append(BatchStats(**{k: prepared(v) for k, v in kwargs.items()}))
    if len(self.incoming_stats) >= self.loss_report_interval:
        self.flush()


def flush(self, ctor):
    if not len(self.incoming_stats):
        return
    names = self.action_names
    b = merge_tensor_namedtuple_list(self.incoming_stats, BatchStats)
    b.write_summary(names)
    self.td_loss.append(float(b.td_loss.mean()))
    if b.logged_rewards is not None:
        self.running_reward.extend(torch.flatten(b.logged_rewards).tolist())
    if b.reward_loss is not None:
        self.reward_loss.append(float(b.reward_loss.mean()))
    if b.imitator_loss is not None:
        self.imitator_loss.append(float(b.imitator_loss.mean()))
    if b.model_values is not None and names:
        self.model_values.append(dict(zip(names, b.model_values.mean(dim=0))))
        self.model_value_stds.append(dict(zip(names, b.model_values.std(dim=0))))
    if b.model_values_on_logged_actions is not None:
        self.logged_action_q_value.append(b.model_values_on_logged_actions.mean().item())
    if b.logged_actions is not None and b.model_action_idxs is not None:
        logged = {a: (b.logged_actions == i).sum().item() for i, a in enumerate(names)}
        model = {a: (b.model_action_idxs == i).sum().item() for i, a in enumerate(names)}
        for a, count in logged.items():
            self.logged_action_counts[a] += count
        self.model_action_counts.append(model)
        for a, count in model.items():
            self.model_action_counts_cumulative[a] += count
        total = float(sum(model.values()))
        self.model_action_distr.append({a: count / total for a, count in model.items()})
    self.incoming_stats.clear()


def num_batches(self, ctor):
    return len(self.td_loss)


def later_losses(self, ctor, n):
    return self.td_loss[n:]


def recent_td(self, ctor):
    return LossReporter.calculate_recent_window_average(self.td_loss, 100, num_entries=1)


def recent_reward_loss(self, ctor):
    return LossReporter.calculate_recent_window_average(self.reward_loss, 100, num_entries=1)


def recent_imitator(self, ctor):
    return LossReporter.calculate_recent_window_average(self.imitator_loss, 100, num_entries=1)


def logged_distribution(self, ctor):
    total = 1.0 * sum(self.logged_action_counts.values())
    return {k: v / total for k, v in self.logged_action_counts.items()}


def model_distribution(self, ctor):
    total = 1.0 * sum(self.model_action_counts_cumulative.values())
    return {k: v / total for k, v in self.model_action_counts_cumulative.items()}


def rewards(self, ctor):
    return self.running_reward


def reporter_scalars(self, ctor, epoch):
    def shown(x):
        return 0.0 if x is None or math.isnan(x) else x

    SummaryWriterContext.add_scalar("Training/td_loss", shown(self.get_recent_td_loss()), epoch)
    SummaryWriterContext.add_scalar("Training/reward_loss", shown(self.get_recent_reward_loss()), epoch)
    SummaryWriterContext.add_scalar("Training/imitator_loss", shown(self.get_recent_imitator_loss()), epoch)


def by_action_append(self, ctor, stats):
    for k in self.stats:
        v = stats.get(k, 0)
        if isinstance(v, torch.Tensor):
            v = v.item()
        self.stats[k].append(v)


def by_action_items(self, ctor):
    return self.stats.items()


def by_action_len(self, ctor):
    return len(self.stats)


def custom_scalars(self, writer):
    writer.add_custom_scalars(self._custom_scalars)


# end of epoch ------------------------------------------------------------------

def epoch_points(self, ctor, epoch):
    try:
        before, expected = self.last_epoch_end_num_batches, self.num_data_points_per_epoch
    except AttributeError:
        before, expected = 0, None
    points = len(self.td_loss.values) - before
    self.last_epoch_end_num_batches = len(self.td_loss.values)
    if expected is None:
        self.num_data_points_per_epoch = points


def merged(items, cls):
    out = {}
    for f in cls._fields:
        given = [v for v in [getattr(e, f) for e in items] if v is not None]
        out[f] = torch.cat(given, dim=0) if given else None
    return cls(**out)
