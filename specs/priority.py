"""Reference definitions: sum tree and prioritized replay."""
import math
import random

import numpy as np
import torch
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.sum_tree import SumTree


def tree_init(self, ctor):
    if ctor.capacity <= 0:
        raise ValueError()
    self.nodes = []
    size = 1
    for _ in range(int(math.ceil(np.log2(ctor.capacity))) + 1):
        self.nodes.append(np.zeros(size))
        size *= 2
    self.max_recorded_priority = 1.0


def total(self, ctor):
    return self.nodes[0][0]


def get(self, ctor, node_index):
    return self.nodes[-1][node_index]


def set(self, ctor, node_index, value):
    if value < 0.0:
        raise ValueError()
    self.max_recorded_priority = max(value, self.max_recorded_priority)
    change = value - self.nodes[-1][node_index]
    for level in reversed(self.nodes):
        level[node_index] += change
        node_index //= 2


def set_indexed(self, ctor, node_index, value):  # the same walk with the levels counted
    if value < 0.0:
        raise ValueError()
    self.max_recorded_priority = max(value, self.max_recorded_priority)
    change = value - self.nodes[-1][node_index]
    for depth in range(len(self.nodes) - 1, -1, -1):
        self.nodes[depth][node_index] += change
        node_index //= 2


def sample(self, ctor, query_value=None):
    if self.nodes[0][0] == 0.0:
        raise Exception()
    if query_value and (query_value < 0.0 or query_value > 1.0):
        raise ValueError()
    if query_value is None:
        query_value = random.random()
    left_mass = query_value * self.nodes[0][0]
    at = 0
    for level in self.nodes[1:]:
        here = level[at * 2]
        if left_mass < here:
            at = at * 2
        else:
            at = at * 2 + 1
            left_mass = left_mass - here
    return at


def stratified(self, ctor, batch_size):
    if self.nodes[0][0] == 0.0:
        raise Exception()
    edges = np.linspace(0.0, 1.0, batch_size + 1)
    queries = [random.uniform(edges[i], edges[i + 1]) for i in range(batch_size)]
    return [self.sample(query_value=q) for q in queries]


def add(self, ctor, **kwargs):
    if len(kwargs) != len(self.get_add_args_signature()):
        raise ValueError()
    transition = {}
    for element in self.get_add_args_signature():
        if element.name == "priority":
            priority = kwargs[element.name]
        else:
            transition[element.name] = element.metadata.input_to_storage(kwargs[element.name])
    self.sum_tree.set(self.add_count % self._replay_capacity, priority)
    self._add_transition(transition)


def sample_indices(self, ctor, batch_size):
    indices = self.sum_tree.stratified_sample(batch_size)
    left = self._max_sample_attempts
    for i in range(len(indices)):
        if not self.is_valid_transition(indices[i]):
            index = indices[i]
            while not self.is_valid_transition(index) and left > 0:
                index = self.sum_tree.sample()
                left -= 1
            if not self.is_valid_transition(index):
                raise RuntimeError()
            indices[i] = index
    return torch.tensor(indices, dtype=torch.int64)


def sample_batch(self, ctor, batch_size=None, indices=None):
    plain = ReplayBuffer.sample_transition_batch(self, batch_size, indices)
    out = []
    for name in self._transition_elements:
        if name == "sampling_probabilities":
            out.append(torch.from_numpy(self.get_priority(plain.indices.numpy().astype(np.int32))).view(-1, 1))
        else:
            out.append(getattr(plain, name))
    return self._batch_type(*out)


def set_priority(self, ctor, indices, priorities):
    for index, priority in zip(indices, priorities):
        self.sum_tree.set(index, priority)


def get_priority(self, ctor, indices):
    out = np.empty((len(indices)), dtype=np.float32)
    for i, index in enumerate(indices):
        out[i] = self.sum_tree.get(index)
    return out


def init(self, ctor):
    self._max_sample_attempts = ctor.max_sample_attempts
    self.sum_tree = SumTree(ctor.replay_capacity)
    self._replay_capacity = ctor.replay_capacity
    self._stack_size = ctor.stack_size
    self._batch_size = ctor.batch_size
    self._update_horizon = ctor.update_horizon
    self._gamma = ctor.gamma


def elements(self, ctor):
    return ReplayBuffer.get_transition_elements(self) + ["sampling_probabilities"]
