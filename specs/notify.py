"""Observers, aggregators and reporters."""
import numpy as np
import torch
from collections import deque
from reagent.core.aggregators import (
    ActionCountAggregator,
    FunctionsByActionAggregator,
    MeanAggregator,
    RecentValuesAggregator,
    TensorBoardActionCountAggregator,
    TensorBoardActionHistogramAndMeanAggregator,
    TensorBoardHistogramAndMeanAggregator,
    _log_histogram_and_mean,
)
from reagent.workflow.reporters.reporter_base import _ReporterObservable
from reagent.core.observers import EpochEndObserver, IntervalAggregatingObserver, TensorBoardScalarObserver, ValueListObserver
from reagent.tensorboardX import SummaryWriterContext


# ---------------------------------------------------------------- tracker
def observer_init(self, ctor):
    self.observing_keys = ctor.observing_keys


def observing_keys(self, ctor):
    return self.observing_keys


def aggregator_init(self, ctor):
    self.key = ctor.key


def aggregator_call(self, ctor, key, values):
    if key != self.key:
        raise AssertionError()
    self.aggregate(values)


def observable_init(self, ctor):
    self._observers = {k: [] for k in self._observable_value_types}


def add_observer(self, ctor, observer):
    # once per declared key, in registration order
    for k in observer.get_observing_keys():
        if k in self._observers and observer not in self._observers[k]:
            self._observers[k].append(observer)
    return self


def add_observers(self, ctor, observers):
    for o in observers:
        self.add_observer(o)
    return self


def notify(self, ctor, **kwargs):
    for key, value in kwargs.items():
        if value is None:
            continue
        assert key in self._observers
        if self._observable_value_types[key] == torch.Tensor:
            try:
                if not isinstance(value, torch.Tensor):
                    value = torch.tensor(value)
                if len(value.shape) == 0:
                    value = value.reshape(1)
                value = value.detach()
            except Exception:
                pass
        for o in self._observers[key]:
            o.update(key, value)


# ---------------------------------------------------------------- observers
def composite_init(self, ctor):
    self.observers = {}
    for o in ctor.observers:
        for key in o.get_observing_keys():
            self.observers.setdefault(key, []).append(o)
    self.observing_keys = list(self.observers)


def composite_update(self, ctor, key, value):
    for o in self.observers[key]:
        o.update(key, value)


def epoch_end_init(self, ctor):
    self.observing_keys = [ctor.key]
    self.callback = ctor.callback


def epoch_end_update(self, ctor, key, value):
    self.callback(value)


def value_list_init(self, ctor):
    self.observing_keys = [ctor.observing_key]
    self.observing_key = ctor.observing_key
    self.values = []


def value_list_update(self, ctor, key, value):
    self.values.append(value)


def value_list_reset(self, ctor):
    self.values = []


def scalar_init(self, ctor):
    self.observing_keys = [ctor.key]
    self.key = ctor.key
    self.logging_key = ctor.logging_key or ctor.key


def scalar_update(self, ctor, key, value):
    SummaryWriterContext.add_scalar(self.logging_key, value)


def interval_init(self, ctor):
    self.key = ctor.aggregator.key
    self.observing_keys = ["epoch_end", ctor.aggregator.key] if ctor.observe_epoch_end else [ctor.aggregator.key]
    self.iteration = 0
    self.interval = ctor.interval
    self.intermediate_values = []
    self.aggregator = ctor.aggregator


def interval_update(self, ctor, key, value):
    if key == "epoch_end":
        self.flush()
    else:
        self.intermediate_values.append(value)
        self.iteration += 1
        if self.interval and self.iteration % self.interval == 0:
            self.aggregator(self.key, self.intermediate_values)
            self.intermediate_values = []


def interval_flush(self, ctor):
    # every pending value is aggregated once, none remains
    self.iteration = 0
    if self.intermediate_values:
        self.aggregator(self.key, self.intermediate_values)
    self.intermediate_values = []


# ---------------------------------------------------------------- aggregators
def tensor_call(self, ctor, key, values):
    if key != self.key:
        raise AssertionError()
    self.aggregate(torch.cat(values, dim=0).cpu())


def log_histogram(log_key, val):
    SummaryWriterContext.add_histogram(log_key, val)
    SummaryWriterContext.add_scalar(f"{log_key}/mean", val.mean())


def histogram_init(self, ctor):
    self.key = ctor.key
    self.log_key = ctor.log_key


def histogram(self, ctor, values):
    if not (len(values.shape) == 1 or (len(values.shape) == 2 and values.shape[1] == 1)):
        raise AssertionError()
    _log_histogram_and_mean(self.log_key, values)


def action_histogram_init(self, ctor):
    self.key = ctor.key
    self.log_key_prefix = ctor.log_key_prefix or f"{ctor.category}/{ctor.title}"
    self.actions = ctor.actions
    SummaryWriterContext.add_custom_scalars_multilinechart(
        [f"{self.log_key_prefix}/{a}/mean" for a in ctor.actions], category=ctor.category, title=ctor.title)


def action_histogram(self, ctor, values):
    if not (len(values.shape) == 2 and values.shape[1] == len(self.actions)):
        raise ValueError()
    for i, action in enumerate(self.actions):
        _log_histogram_and_mean(f"{self.log_key_prefix}/{action}", values[:, i])


def action_count_init(self, ctor):
    self.key = ctor.key
    self.log_key = f"actions/{ctor.title}"
    self.actions = ctor.actions
    SummaryWriterContext.add_custom_scalars_multilinechart(
        [f"actions/{ctor.title}/{a}" for a in ctor.actions], category="actions", title=ctor.title)


def action_count(self, ctor, values):
    for i, action in enumerate(self.actions):
        SummaryWriterContext.add_scalar(f"{self.log_key}/{action}", (values == i).sum().item())


def mean_init(self, ctor):
    self.key = ctor.key
    self.values = []


def mean(self, ctor, values):
    self.values.append(values.mean().item())


def functions_init(self, ctor):
    self.key = ctor.key
    self.actions = ctor.actions
    self.values = {fn: {a: [] for a in ctor.actions} for fn in ctor.fns.keys()}
    self.fns = ctor.fns


def functions(self, ctor, values):
    for name, func in self.fns.items():
        columns = func(values, dim=0)
        for action, value in zip(self.actions, columns):
            self.values[name][action].append(value.item())


def counts_init(self, ctor):
    self.key = ctor.key
    self.actions = ctor.actions
    self.values = {a: [] for a in ctor.actions}


def counts(self, ctor, values):
    for i, action in enumerate(self.actions):
        self.values[action].append((values == i).sum().item())


def distributions(self, ctor):
    totals = np.array([sum(c) for c in zip(*self.values.values())])
    return {a: (np.array(c) / totals).tolist() for a, c in self.values.items()}


def cumulative(self, ctor):
    total = sum(sum(c) for c in zip(*self.values.values()))
    return {a: sum(c) / total for a, c in self.values.items()}


def recent_init(self, ctor):
    self.key = ctor.key
    self.values = deque(maxlen=ctor.size)


def recent(self, ctor, values):
    self.values.extend(torch.flatten(values).tolist())


# ---------------------------------------------------------------- reporters
def reporter_flush(self, ctor, epoch):
    for o in self._aggregating_observers.values():
        o.flush()


def reporter_log(self, ctor, **kwargs):
    self._reporter_observable.notify_observers(**kwargs)


def reporter_getattr(self, ctor, key):
    v = self._value_list_observers.get(key, None)
    if v is not None:
        return v
    a = self._aggregating_observers.get(key, None)
    if a is not None:
        return a.aggregator
    raise AttributeError


def declared_types(self, ctor):
    return {k: torch.Tensor for k in self._reporter.get_observing_keys()}


def flexible_flush(self, ctor, epoch):
    # pending values first, then the epoch's data points
    for o in self._aggregating_observers.values():
        o.flush()
    try:
        seen = self.last_epoch_end_num_batches
        _ = self.num_data_points_per_epoch
    except AttributeError:
        seen = 0
    n = len(self.td_loss.values)
    self.num_data_points_per_epoch = n - seen
    self.last_epoch_end_num_batches = n


# ---------------------------------------------------------------- summary writer
def reset_globals(self):
    self._global_step = 0
    self._custom_scalars = {}


def next_step(self):
    self._global_step += 1


def multiline(self, tags, category=None, title=None):
    assert category and title
    if category not in self._custom_scalars:
        self._custom_scalars[category] = {}
    assert title not in self._custom_scalars[category]
    self._custom_scalars[category][title] = ["Multiline", tags]


def push_writer(self, writer):
    self._writer_stacks.append(writer)


# ---------------------------------------------------------------- reporters of the trainers
def _every(n, *named):
    return {name: IntervalAggregatingObserver(n, a) for name, a in named}


def _tensorboard(*keys):
    return [(f"{k}_tb", TensorBoardHistogramAndMeanAggregator(k, log)) for k, log in keys]


def _discrete(ctor, extra):
    return _every(
        ctor.report_interval,
        ("td_loss", MeanAggregator("td_loss")),
        ("reward_loss", MeanAggregator("reward_loss")),
        ("model_values", FunctionsByActionAggregator("model_values", ctor.actions, {"mean": torch.mean, "std": torch.std})),
        ("logged_action", ActionCountAggregator("logged_actions", ctor.actions)),
        ("model_action", ActionCountAggregator("model_action_idxs", ctor.actions)),
        ("recent_rewards", RecentValuesAggregator("logged_rewards")),
        ("logged_actions_tb", TensorBoardActionCountAggregator("logged_actions", "logged", ctor.actions)),
        ("model_action_idxs_tb", TensorBoardActionCountAggregator("model_action_idxs", "model", ctor.actions)),
        *_tensorboard(
            ("td_loss", "td_loss"),
            ("reward_loss", "reward_loss"),
            ("logged_propensities", "propensities/logged"),
            ("logged_rewards", "reward/logged"),
            *extra,
        ),
        ("model_propensities_tb", TensorBoardActionHistogramAndMeanAggregator("model_propensities", "propensities", "model", ctor.actions)),
        ("model_rewards_tb", TensorBoardActionHistogramAndMeanAggregator("model_rewards", "reward", "model", ctor.actions)),
        ("model_values_tb", TensorBoardActionHistogramAndMeanAggregator("model_values", "value", "model", ctor.actions)),
    )


VALUES = [
    ("q1_loss", "loss/q1_loss"),
    ("actor_loss", "loss/actor_loss"),
    ("q1_value", "q_value/q1_value"),
    ("next_q_value", "q_value/next_q_value"),
    ("target_q_value", "q_value/target_q_value"),
    ("actor_q1_value", "q_value/actor_q1_value"),
    ("q2_loss", "loss/q2_loss"),
    ("q2_value", "q_value/q2_value"),
]


def dqn_reporter(self, ctor):
    self._value_list_observers = {"cpe_results": ValueListObserver("cpe_details")}
    self._aggregating_observers = _discrete(ctor, [])


def crr_reporter(self, ctor):
    self._value_list_observers = {"cpe_results": ValueListObserver("cpe_details")}
    self._aggregating_observers = _discrete(ctor, VALUES)


def _common(n, *keys):
    return _every(
        n,
        ("td_loss", MeanAggregator("td_loss")),
        ("recent_rewards", RecentValuesAggregator("logged_rewards")),
        ("logged_action_q_value", MeanAggregator("model_values_on_logged_actions")),
        *_tensorboard(*keys),
    )


LOGGED = [
    ("td_loss", "td_loss"),
    ("reward_loss", "reward_loss"),
    ("logged_propensities", "propensities/logged"),
    ("logged_rewards", "reward/logged"),
]


def parametric_reporter(self, ctor):
    self._value_list_observers = {"cpe_results": ValueListObserver("cpe_details")}
    self._aggregating_observers = _every(
        ctor.report_interval,
        ("td_loss", MeanAggregator("td_loss")),
        ("reward_loss", MeanAggregator("reward_loss")),
        ("recent_rewards", RecentValuesAggregator("logged_rewards")),
        ("model_values_on_logged_actions", MeanAggregator("model_values_on_logged_actions")),
        *_tensorboard(*LOGGED),
    )


def actor_critic_reporter(self, ctor):
    self._value_list_observers = {"cpe_results": ValueListObserver("cpe_details")}
    self._aggregating_observers = _common(ctor.report_interval, *LOGGED)


def slate_reporter(self, ctor):
    self._value_list_observers = {"cpe_results": ValueListObserver("cpe_details")}
    self._aggregating_observers = _common(
        ctor.report_interval, ("td_loss", "td_loss"), ("reward_loss", "reward_loss"), ("logged_rewards", "reward/logged"))


def td3_reporter(self, ctor):
    self._value_list_observers = {"cpe_results": ValueListObserver("cpe_details")}
    d = _common(ctor.report_interval, *LOGGED)
    d.update(_every(1, *_tensorboard(*VALUES)))
    self._aggregating_observers = d


def sac_reporter(self, ctor):
    self._value_list_observers = {
        "cpe_results": ValueListObserver("cpe_details"),
        "entropy_temperature_tb": TensorBoardScalarObserver("entropy_temperature", None),
        "kld_tb": TensorBoardScalarObserver("kld", "kld/kld"),
    }
    d = _common(ctor.report_interval, *LOGGED)
    d.update(
        _every(
            1,
            *_tensorboard(
                ("q1_value", "q1/logged_state_value"),
                ("q2_value", "q2/logged_state_value"),
                ("log_prob_a", "log_prob_a"),
                ("target_state_value", "value_network/target"),
                ("next_state_value", "q_network/next_state_value"),
                ("target_q_value", "q_network/target_q_value"),
                ("actor_output_log_prob", "actor/log_prob"),
                ("min_q_actor_value", "actor/min_q_actor_value"),
                ("actor_loss", "actor/loss"),
                ("action_batch_mean", "kld/mean"),
                ("action_batch_var", "kld/var"),
            ),
        )
    )
    self._aggregating_observers = d


def anything(self, ctor):
    pass


def reporter_init(self, ctor):
    self._value_list_observers = ctor.value_list_observers
    self._aggregating_observers = ctor.aggregating_observers
    everyone = (
        list(ctor.value_list_observers.values()) + list(ctor.aggregating_observers.values()) + [EpochEndObserver(self.flush)]
    )
    self.observers = {}
    for o in everyone:
        for key in o.get_observing_keys():
            self.observers.setdefault(key, []).append(o)
    self.observing_keys = list(self.observers)
    self._reporter_observable = _ReporterObservable(self)
