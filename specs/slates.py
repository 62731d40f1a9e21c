"""Reference definitions: slate off-policy evaluation."""
import math
import random
from typing import Mapping, Sequence

import numpy as np
import torch
from reagent.ope.estimators.estimator import EstimatorResult, EstimatorSampleResult
from reagent.ope.estimators.slate_estimators import (
    DCGSlateMetric,
    Slate,
    SlateItem,
    SlateItemProbabilities,
    SlateItems,
    SlateSlot,
    SlateSlotFeatures,
    SlateSlotItemExpectations,
    SlateSlots,
    SlateSlotValues,
    _calculate_slot_expectation,
    is_to_calculate_expectation,
    make_slate,
    make_slot_item_distributions,
)
from reagent.ope.estimators.types import Items, TrainingData
from reagent.ope.utils import Clamper, RunningAverage
from torch import Tensor


# ---- maps over slots and items
def named(self, values):
    return [(s, v) for s, v in zip(self.slots, values[: len(self._values)])]


def slot_fill(self, ctor, values):
    n = len(self._values)
    if self._key_to_index is None:
        return values[:n]
    return dict(zip(self.slots, values[:n]))


def slots_of(self, ctor):
    if self._key_to_index is None:
        return SlateSlots(len(self._values))
    return SlateSlots(list(self._key_to_index.keys()))


def items_of(self, ctor):
    if self._key_to_index is None:
        return SlateItems(len(self))
    return SlateItems(super().keys)


def features_init(self, ctor, values):
    if isinstance(values, Tensor):
        self._values = values.to(dtype=torch.double)
    elif isinstance(values, np.ndarray):
        self._values = torch.as_tensor(values, dtype=torch.double)
    elif isinstance(values, Sequence):
        self._values = torch.stack(values).to(dtype=torch.double)
    elif isinstance(values, Mapping):
        self._key_to_index = dict(zip(values.keys(), range(len(values))))
        self._index_to_key = list(values.keys())
        self._values = torch.stack(list(values.values())).to(dtype=torch.double)
    else:
        raise TypeError("unsupported")


def stacked(self, ctor):
    return torch.stack(self._values)


def one_hots(self, ctor, items, device=None):
    marks = torch.zeros((len(self), len(items)), dtype=torch.double, device=device)
    for row, item in zip(marks, self._values):
        row[items.index_of(item)] = 1.0
    return marks


def slot_values(self, ctor, item_values):
    if self._key_to_index is None:
        return SlateSlotValues([item_values[i] for i in self._values])
    return SlateSlotValues({slot: item_values[item] for slot, item in self})


def slot_features(self, ctor, item_features):
    if self._key_to_index is None:
        return SlateSlotFeatures([item_features[i].detach().clone() for i in self._values])
    return SlateSlotFeatures({slot: item_features[item].detach().clone() for slot, item in self})


def slate_of(slots, items):
    n = len(slots)
    if slots.is_sequence:
        return Slate(list(items[:n]))
    return Slate(dict(zip(slots, items[:n])))


def dists_of(slots, dists):
    n = len(slots)
    if slots.is_sequence:
        return SlateSlotItemExpectations(list(dists[:n]))
    return SlateSlotItemExpectations(dict(zip(slots, dists[:n])))


def values_tensor(self, ctor, device=None):
    return torch.stack([v.values for v in self._values]).to(device=device)


def expected_rewards(self, ctor, item_rewards, device=None):
    r = torch.mm(self.values_tensor(device), item_rewards.values.to(device=device).unsqueeze(0).t()).squeeze()
    if self._key_to_index is None:
        return SlateSlotValues(r)
    return SlateSlotValues(dict(zip(self.slots, r.tolist())))


# ---- selection without replacement
def small_enough(slate_size, item_size):
    limit = {4: 182, 5: 47, 6: 22, 7: 15}
    return (slate_size < 4 or (slate_size == 4 and item_size < 182) or (slate_size == 5 and item_size < 47)
            or (slate_size == 6 and item_size < 22) or (slate_size == 7 and item_size < 15))


def slot_expectation(d_out, probs, buffer):
    out = []
    for chosen, joint, used, _ in buffer:
        for i, pi in enumerate(probs):
            if i not in chosen:
                total = used + pi
                if total < 1.0:
                    j = joint * pi / (1.0 - used)
                    out.append(({*chosen, i}, j, total, j / (1.0 - total)))
    for i, pi in enumerate(probs):
        mass = 0.0
        for chosen, _, _, ratio in out:
            if i not in chosen:
                mass += ratio
        d_out[i] = mass * pi
    return out


def item_probability(self, ctor, slate):
    if self._greedy:
        for best, item in zip(super().greedy(len(slate)), slate.items):
            if best != item:
                return 0.0
        return 1.0
    left = torch.clamp(self._values, 0.0)
    at = [self.index_of(item) for _, item in slate]
    probs = left[at]
    total = left[at]
    left[at] = 0.0
    return (probs / (total.flip(0).cumsum(0).flip(0) + left.sum())).prod().item()


def item_expectations(self, ctor, slots):
    n = len(slots)
    if self._slot_item_expectations is not None and len(self._slot_item_expectations) >= n:
        return self._slot_item_expectations
    if self._greedy:
        self._slot_item_expectations = make_slot_item_distributions(
            slots, [self.replace(torch.zeros(len(self), dtype=torch.double)) for _ in range(len(self))]
        )
        best, _ = self.sort()
        for item, dist in zip(best, self._slot_item_expectations.expectations):
            dist[item] = 1.0
    else:
        self._normalize()
        if is_to_calculate_expectation(n, len(self)):
            self._calculate_expectations(slots)
        else:
            self._sample_expectations(slots, 20000)
    return self._slot_item_expectations


def sampled_expectations(self, ctor, slots, num_samples):
    m, n = len(slots), len(self)
    counts = torch.zeros((m, n), dtype=torch.double)
    where = torch.arange(m)
    weights = self._probabilities.repeat((num_samples, 1))
    for _ in range(n):
        for drawn in torch.multinomial(weights, m):
            counts[where, drawn] += 1
    counts /= num_samples * n
    self._slot_item_expectations = make_slot_item_distributions(slots, [self.replace(row) for row in counts])


def exact_expectations(self, ctor, slots):
    table = torch.zeros((len(slots), len(self)), dtype=torch.double)
    table[0] = self._probabilities
    buffer = [(set(), 1.0, 0.0, 1.0)]
    probs = self._probabilities.tolist()
    for row in table[1:]:
        buffer = _calculate_slot_expectation(row, probs, buffer)
    self._slot_item_expectations = make_slot_item_distributions(slots, [self.replace(row) for row in table])


def item_slate(self, ctor, slots):
    if self._greedy:
        return make_slate(slots, super().greedy(len(slots)))
    return make_slate(slots, super().sample(len(slots)))


def item_space(self, ctor, slots, max_size=-1):
    m, n = len(slots), len(self)
    if self._greedy:
        return [(super().greedy(m), 1.0)]
    self._normalize()
    partial = [([], 1.0, 0.0)]
    probs = self._probabilities.tolist()
    for _ in range(m):
        longer = []
        for chosen, joint, used in partial:
            for i, pi in enumerate(probs):
                if i not in chosen:
                    total = used + pi
                    if total < 1.0 or len(chosen) + 1 == n:
                        longer.append(([*chosen, i], joint * pi / (1.0 - used), total))
        if max_size <= 0 or max_size > len(longer):
            partial = longer
        else:
            partial = random.sample(longer, max_size)
    return [([SlateItem(i) for i in b[0]], b[1]) for b in partial]


def reset_items(self, ctor):
    super()._reset()
    self._slot_item_expectations = None


def slot_probability(self, ctor, slate):
    zarlier = []
    if self._greedy:
        for slot, item in slate:
            ranked, _ = self[slot].sort()
            best = next(i for i in ranked if i not in zarlier)
            if best != item:
                return 0.0
            zarlier.append(item)
        return 1.0
    p = 1.0
    for slot, item in slate:
        probs = self[slot]
        left = 1.0
        for e in zarlier:
            left -= probs.probability(e)
        if math.fabs(left) < 1.0e-10:
            return 0.0
        p *= probs.probability(item) / left
        zarlier.append(item)
    return p


def slot_expectations(self, ctor, samples=20000):
    m = len(self.slots)
    if self._slot_item_expectations is not None and len(self._slot_item_expectations) >= m:
        return self._slot_item_expectations
    n = len(self._values[0])
    scores = self.values_tensor()
    if self._greedy:
        dists = []
        for i, value in zip(range(m), self._values):
            best = scores[i].argmax().item()
            one = torch.zeros(n, dtype=torch.double)
            one[best] = 1.0
            dists.append(value.replace(one))
            scores[torch.arange(i + 1, m), best] = 0.0
        self._slot_item_expectations = make_slot_item_distributions(self.slots, dists)
    elif is_to_calculate_expectation(m, n):
        self._calculate_expectations()
    else:
        self._sample_expectations(samples * n)
    return self._slot_item_expectations


def sampled_slot_expectations(self, ctor, num_samples):
    m, n = len(self.slots), len(self._values[0])
    counts = torch.zeros((m, n), dtype=torch.double)
    where = torch.arange(m)
    for _ in range(num_samples):
        scores = self.values_tensor()
        drawn = []
        for i in range(m):
            item = scores[i].multinomial(1)
            drawn.append(item)
            scores[torch.arange(i + 1, m), item] = 0.0
        counts[where, drawn] += 1
    counts /= num_samples
    self._slot_item_expectations = make_slot_item_distributions(self.slots, [v.replace(row) for v, row in zip(self._values, counts)])


def exact_slot_expectations(self, ctor):
    table = torch.zeros((len(self.slots), len(self._values[0])), dtype=torch.double)
    per_slot = []
    for v in self._values:
        v._normalize()
        per_slot.append(v._probabilities.detach().clone())
    table[0] = per_slot[0]
    buffer = [({}, 1.0, 0.0, 1.0)]
    for row, probs in zip(table[1:], per_slot[1:]):
        buffer = _calculate_slot_expectation(row, probs.tolist(), buffer)
    self._slot_item_expectations = make_slot_item_distributions(self.slots, [v.replace(row) for v, row in zip(self._values, table)])


def slot_slate(self, ctor, slots):
    m = len(slots)
    scores = self.values_tensor()
    items = []
    for i, value in zip(range(m), self._values):
        if self._greedy:
            at = scores[i].argmax().item()
        else:
            at = scores[i].multinomial(1).item()
        items.append(value.items[at])
        scores[torch.arange(i + 1, m), at] = 0.0
    return make_slate(slots, items)


# ---- reward to distribution
def as_distribution(self, ctor, rewards):
    return SlateItemProbabilities(rewards.items.fill(self.distribution(rewards.values)), self._deterministic)


def pass_through(self, ctor, rewards):
    return rewards.detach().clone()


def by_rank(self, ctor, rewards):
    dist = rewards.detach().clone()
    if self._alpha >= 0:
        _, order = torch.sort(rewards, descending=True)
        rank = torch.arange(1, order.shape[0] + 1, dtype=torch.double)
        dist[order] = torch.pow(2.0, -1.0 * torch.floor(self._alpha * torch.log2(rank)))
    return dist


def frechet(self, ctor, rewards):
    return torch.pow(rewards, self._shape)


# ---- metrics
def metric_reward(self, ctor, slots, rewards=None, slot_values=None, slot_weights=None):
    v = self.slot_values(rewards) if slot_values is None else slot_values
    w = self.slot_weights(slots) if slot_weights is None else slot_weights
    return torch.tensordot(v.values.to(device=self._device), w.values.to(device=self._device), dims=([0], [0])).item()


def metric_call(self, ctor, slots, rewards):
    return self.calculate_reward(slots, rewards)


def unit_weights(self, ctor, slots):
    return slots.fill([1.0] * len(slots))


def unit_values(self, ctor, rewards):
    return rewards


def dcg_discount(self, ctor, slate_size):
    # value of a fresh table
    return torch.reciprocal(torch.log2(torch.arange(2, slate_size + 2, dtype=torch.double, device=self._device)))[:slate_size]


def dcg_weights(self, ctor, slots):
    return slots.fill(self._get_discount(len(slots)))


def dcg_values(self, ctor, rewards):
    return rewards.replace(torch.pow(2.0, rewards.values) - 1.0)


def ndcg_weights(self, ctor, slots):
    n = len(slots)
    if n in self._idcg:
        best = self._idcg[n]
    else:
        ideal = make_slate(slots, self._sorted_items[:n])
        best = super().calculate_reward(slots, ideal.slot_values(self._item_rewards), None, super().slot_weights(slots))
        self._idcg[n] = best
    if best == 0:
        return slots.fill(torch.zeros(n, dtype=torch.double))
    return slots.fill(self._get_discount(n) / best)


def err_weights(self, ctor, slots):
    return slots.fill([1.0 / (r + 1) for r in range(len(slots))])


def err_values(self, ctor, rewards):
    gain = (torch.pow(2.0, rewards.values.clamp(0.0, self._max_reward)) - 1.0) / 2.0 ** self._max_reward
    err = torch.zeros(len(rewards), dtype=torch.double, device=self._device)
    unseen = 1.0
    for i in range(len(rewards)):
        err[i] = unseen * gain[i]
        unseen = unseen * (1.0 - gain[i].item())
    return rewards.replace(err)


def examined(self, ctor, context):
    return context.slots.fill(torch.ones(len(context.slots), dtype=torch.double))


# ---- log samples
def log_expectations(self, slots):
    if self._log_slot_item_probabilities is not None:
        return self._log_slot_item_probabilities.slot_item_expectations()
    if self._log_item_probabilities is not None:
        return self._log_item_probabilities.slot_item_expectations(slots)
    return None


def log_probability(self, slate=None):
    if not math.isnan(self._log_slate_probability):
        return self._log_slate_probability
    which = self.log_slate if slate is None else slate
    if self._log_slot_item_probabilities is not None:
        return self._log_slot_item_probabilities.slate_probability(which)
    if self._log_item_probabilities is not None:
        return self._log_item_probabilities.slate_probability(which)
    return 0.0


def tgt_expectations(self, slots):
    if self._tgt_slot_item_probabilities is not None:
        return self._tgt_slot_item_probabilities.slot_item_expectations()
    if self._tgt_item_probabilities is not None:
        return self._tgt_item_probabilities.slot_item_expectations(slots)
    return None


def tgt_probability(self):
    if not math.isnan(self._tgt_slate_probability):
        return self._tgt_slate_probability
    if self._tgt_slot_item_probabilities is not None:
        return self._tgt_slot_item_probabilities.slate_probability(self.log_slate)
    if self._tgt_item_probabilities is not None:
        return self._tgt_item_probabilities.slate_probability(self.log_slate)
    return 0.0


def tgt_space(self, slots):
    if self._tgt_item_probabilities is not None:
        return self._tgt_item_probabilities.slate_space(slots)
    return []


def sample_items(self):
    if self._log_slot_item_probabilities is not None:
        return self._log_slot_item_probabilities._values[0].items
    if self._log_item_probabilities is not None:
        return self._log_item_probabilities.items
    return SlateItems(0)


# ---- estimators
def ratio(self, sample):
    p, q = sample.tgt_slate_probability(), sample.log_slate_probability(sample.log_slate)
    invalid = p != q and p > 0.0 and q <= 0.0
    return invalid, 1.0 if p == q else (0.0 if p <= 0.0 else self._weight_clamper(p / q))


def weighted_result(sample, weight):
    return EstimatorSampleResult(sample.log_reward, sample.log_reward * weight, sample.ground_truth_reward, weight)


def ips_sample(self, ctor, sample):
    invalid, w = ratio(self, sample)
    if invalid:
        return None
    return weighted_result(sample, w)


def expected_prediction(self, sample):
    slots = sample.context.slots
    feats = []
    probs = []
    for items, prob in sample.tgt_slate_space(slots):
        feats.append(make_slate(slots, items).slot_features(sample.item_features).features.flatten())
        probs.append(prob)
    scores = self._trainer.predict(torch.stack(feats), device=self._device).scores
    return torch.dot(scores, torch.tensor(probs, dtype=torch.double, device=self._device)).item()


def dm_sample(self, ctor, sample):
    return EstimatorSampleResult(sample.log_reward, expected_prediction(self, sample), sample.ground_truth_reward, float("nan"))


def dr_sample(self, ctor, sample):
    if self._trainer.is_trained:
        model = expected_prediction(self, sample)
        logged = sample.log_slate.slot_features(sample.item_features).features.flatten()
        logged_model = self._trainer.predict(torch.unsqueeze(logged, dim=0), device=self._device).scores[0].item()
    else:
        model = 0.0
        logged_model = 0.0
    invalid, w = ratio(self, sample)
    if invalid:
        return None
    return EstimatorSampleResult(sample.log_reward, (sample.log_reward - logged_model) * w + model, sample.ground_truth_reward, w)


def pseudo_inverse_sample(self, ctor, sample):
    slots = sample.context.slots
    logged = sample.log_slot_item_expectations(slots)
    if logged is None:
        return None
    target = sample.tgt_slot_expectations(slots)
    if target is None:
        return None
    n = len(slots) * len(sample.items)
    q = logged.values_tensor(self._device)
    p = target.values_tensor(self._device)
    inv = torch.as_tensor(np.linalg.pinv(torch.mm(q.view((n, 1)), q.view((1, n))).numpy()))
    shown = sample.log_slate.one_hots(sample.items, self._device).view((n, 1))
    w = self._weight_clamper(torch.mm(p.view((1, n)), torch.mm(inv, shown))).item()
    return weighted_result(sample, w)


def pbm_sample(self, ctor, sample):
    slots = sample.context.slots
    logged = sample.log_slot_item_expectations(slots)
    if logged is None:
        return None
    target = sample.tgt_slot_expectations(slots)
    if target is None:
        return None
    n = len(slots)
    sw = sample.slot_weights
    if sw is None:
        sw = SlateSlotValues(torch.ones(n, dtype=torch.double))
    exam = sw.values.to(device=self._device)
    if sample.slot_probabilities is not None:
        exam = exam * sample.slot_probabilities.values
    h = torch.zeros(n, dtype=torch.double, device=self._device)
    p = torch.zeros(n, dtype=torch.double, device=self._device)
    i = 0
    for slot, item in sample.log_slate:
        h[i] = target[slot][item]
        p[i] = logged[slot][item]
        i += 1
    nu = torch.tensordot(h, exam, dims=([0], [0]))
    de = torch.tensordot(p, exam, dims=([0], [0]))
    if nu == de:
        return weighted_result(sample, 1.0)
    if nu == 0:
        return weighted_result(sample, 0.0)
    if de == 0:
        return None
    return weighted_result(sample, self._weight_clamper(nu / de))


def averages(self, samples):
    log, tgt, wt, gt = RunningAverage(), RunningAverage(), RunningAverage(), RunningAverage()
    for sample in samples:
        r = self._evaluate_sample(sample)
        if r is not None:
            log.add(r.log_reward)
            tgt.add(r.target_reward)
            gt.add(r.ground_truth_reward)
            wt.add(r.weight)
    return log, tgt, wt, gt


def combined(self, log, tgt, wt, gt):
    if self._weighted:
        return EstimatorResult(log.average, tgt.total / wt.total, gt.average, wt.average)
    return EstimatorResult(log.average, tgt.average, gt.average, tgt.count)


def weighted_average(self, ctor, input):
    input.validate()
    log, tgt, wt, gt = averages(self, input.samples)
    if tgt.count == 0:
        return None
    return combined(self, log, tgt, wt, gt)


def dm_average(self, ctor, input):
    input.validate()
    held = self._train_model(input.samples)
    if held is None:
        return None
    log, tgt, gt = RunningAverage(), RunningAverage(), RunningAverage()
    for sample in held:
        r = self._evaluate_sample(sample)
        if r is not None:
            log.add(r.log_reward)
            tgt.add(r.target_reward)
            gt.add(r.ground_truth_reward)
    return EstimatorResult(log.average, tgt.average, gt.average, tgt.count)


def dr_average(self, ctor, input):
    input.validate()
    held = self._train_model(input.samples)
    if held is None:
        held = input.samples
    log, tgt, wt, gt = averages(self, held)
    return combined(self, log, tgt, wt, gt)


def train(self, ctor, samples):
    if self._trainer is None:
        return None
    self._trainer.reset()
    n = len(samples)
    count = n
    if self._training_sample_ratio > 0.0 and self._training_sample_ratio < 1.0:
        count = int(n * self._training_sample_ratio)
    x = []
    y = []
    held = [True] * n
    for i in range(count):
        s = samples[i]
        if s.item_features is not None:
            x.append(s.log_slate.slot_features(s.item_features).features.flatten())
            y.append(s.log_reward)
            held[i] = False
    if len(x) == 0:
        return None
    x = torch.stack(x)
    y = torch.tensor(y, dtype=torch.double, device=x.device)
    vx = []
    vy = []
    rest = []
    for keep, s in zip(held, samples):
        if keep and s.item_features is not None:
            vx.append(s.log_slate.slot_features(s.item_features).features.flatten())
            vy.append(s.log_reward)
            rest.append(s)
    if len(vx) == 0:
        vx = x.detach().clone()
        vy = y.detach().clone()
        rest = samples
    else:
        vx = torch.stack(vx)
        vy = torch.tensor(vy, dtype=torch.double, device=vx.device)
    self._trainer.train(TrainingData(x, y, None, vx, vy, None))
    return rest


def built(self, ctor):
    self._device = ctor.device
    if hasattr(ctor, "weight_clamper"):
        self._weight_clamper = ctor.weight_clamper if ctor.weight_clamper is not None else Clamper()


def weighted_built(self, ctor):
    self._device = ctor.device
    self._weighted = ctor.weighted
    self._weight_clamper = ctor.weight_clamper if ctor.weight_clamper is not None else Clamper()


def trained_built(self, ctor):
    self._device = ctor.device
    self._trainer = ctor.trainer
    self._training_sample_ratio = ctor.training_sample_ratio


def dr_built(self, ctor):
    trained_built(self, ctor)
    weighted_built(self, ctor)


def ndcg_built(self, ctor):
    self._device = ctor.device
    self._sorted_items, _ = ctor.item_rewards.sort()
    self._item_rewards = ctor.item_rewards
    self._idcg = {}


def err_built(self, ctor):
    self._device = ctor.device
    self._max_reward = ctor.max_reward


# ---- construction
def slot_key(self, ctor, k):
    return SlateSlot(k)


def item_key(self, ctor, k):
    return SlateItem(k)


def slot_values_of(self, ctor, values):
    return SlateSlotValues(Items.fill(self, values))


def all_values(self, ctor):
    return list(self._values)


def matrix_built(self, ctor):
    self._key_to_index = None
    self._index_to_key = None
    self._init_values(ctor.values)
    self._reset()
    self._item_size = len(self._values[0])
    return self


def item_probs_built(self, ctor):
    self._key_to_index = None
    self._index_to_key = None
    self._init_values(ctor.values)
    self._reset()
    self._greedy = ctor.greedy
    self._slot_item_expectations = None
    return self


def slot_probs_built(self, ctor):
    self._key_to_index = None
    self._index_to_key = None
    self._init_values(ctor.values)
    self._reset()
    self._item_size = len(self._values[0])
    self._greedy = ctor.greedy
    self._slot_item_distributions = None
    self._slot_item_expectations = None
    return self


def greedy_flag(self, ctor):
    return self._greedy


def distribution_built(self, ctor):
    self._deterministic = ctor.deterministic
    return self


def ranking_built(self, ctor):
    self._deterministic = ctor.deterministic
    self._alpha = ctor.alpha
    return self


def frechet_built(self, ctor):
    self._deterministic = ctor.deterministic
    self._shape = ctor.shape
    return self


def policy_built(self, ctor):
    self.device = ctor.device
    return self


def queried(self, ctor, context):
    return self._query(context)


def on_device(self, ctor):
    self._device = ctor.device
    return self


def discount(self, ctor, slate_size):
    known = DCGSlateMetric._weights
    if known is None or known.shape[0] < slate_size or known.device != self._device:
        known = torch.reciprocal(torch.log2(torch.arange(2, slate_size + 2, dtype=torch.double, device=self._device)))
        DCGSlateMetric._weights = known
    return known[:slate_size]
