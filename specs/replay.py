"""Reference definitions: circular replay buffer."""
import collections
import gzip
import os
import pickle

import numpy as np
import torch
from reagent.replay_memory.circular_replay_buffer import (
    DenseMetadata,
    IDListMetadata,
    IDScoreListMetadata,
    ReplayElement,
    make_replay_element,
)


def add(self, ctor, **kwargs):
    if not self._initialized_buffer:
        self.initialize_buffer(**kwargs)
    self._check_add_types(**kwargs)
    cap = self._replay_capacity
    if self.add_count == 0 or self._store["terminal"][(self.add_count % cap - 1) % cap]:
        self._num_transitions_in_current_episode = 0
        for _ in range(self._stack_size - 1):
            self._add(**self._zero_transition)
    slot = self.add_count % cap
    self.set_index_valid_status(slot, False)
    if self._num_transitions_in_current_episode >= self._update_horizon:
        self.set_index_valid_status((slot - self._update_horizon) % cap, True)
    self._add(**kwargs)
    self._num_transitions_in_current_episode += 1
    for i in range(self._stack_size - 1):
        self.set_index_valid_status((self.add_count % cap + i) % cap, False)
    if kwargs["terminal"]:
        for i in range(min(self._num_transitions_in_current_episode, self._update_horizon)):
            self.set_index_valid_status((slot - i) % cap, True)


def set_valid(self, ctor, idx, is_valid):
    was = self._is_index_valid[idx]
    if is_valid and not was:
        self._num_valid_indices += 1
    elif was and not is_valid:
        self._num_valid_indices -= 1
    self._is_index_valid[idx] = is_valid


def add_store(self, ctor, **kwargs):
    if len(kwargs) != len(self.get_add_args_signature()):
        raise ValueError()
    for element in self.get_add_args_signature():
        kwargs[element.name] = element.metadata.input_to_storage(kwargs[element.name])
    self._add_transition(kwargs)


def add_store_new(self, ctor, **kwargs):  # as many arguments as signature elements, each of them there: the same dictionary
    if len(kwargs) != len(self.get_add_args_signature()):
        raise ValueError()
    self._add_transition({e.name: e.metadata.input_to_storage(kwargs[e.name]) for e in self.get_add_args_signature()})


def add_transition(self, ctor, transition):
    at = self.add_count % self._replay_capacity
    for name in transition:
        self._store[name][at] = transition[name]
    self.add_count += 1


def check_types(self, ctor, **kwargs):
    if len(kwargs) != len(self.get_add_args_signature()):
        raise ValueError()
    for element in self.get_add_args_signature():
        element.metadata.validate(element.name, kwargs[element.name])


def sample_indices(self, ctor, batch_size):
    if self._num_valid_indices == 0:
        raise RuntimeError()
    good = self._is_index_valid.nonzero().squeeze(1)
    return good[torch.randint(good.shape[0], (batch_size,))]


def sample_all(self, ctor):
    good = self._is_index_valid.nonzero().squeeze(1)
    return self.sample_transition_batch(batch_size=len(good), indices=good)


def size(self, ctor):
    return self._num_valid_indices


def is_valid(self, ctor, index):
    return self._is_index_valid[index]


def cursor(self, ctor):
    return self.add_count % self._replay_capacity


def init(self, ctor):
    if ctor.replay_capacity < ctor.update_horizon + ctor.stack_size:
        raise ValueError()
    self._initialized_buffer = False
    self._stack_size = ctor.stack_size
    self._return_everything_as_stack = ctor.return_everything_as_stack
    self._return_as_timeline_format = ctor.return_as_timeline_format
    self._replay_capacity = ctor.replay_capacity
    self._batch_size = ctor.batch_size
    self._update_horizon = ctor.update_horizon
    self._gamma = ctor.gamma
    self.add_count = np.array(0)
    self._decays = (ctor.gamma ** torch.arange(ctor.update_horizon)).unsqueeze(0)
    self._is_index_valid = torch.zeros(ctor.replay_capacity, dtype=torch.bool)
    self._num_valid_indices = 0
    self._num_transitions_in_current_episode = 0


def initialize(self, ctor, **kwargs):
    required = ["observation", "action", "reward", "terminal"]
    names = set(kwargs.keys())
    assert set(required).issubset(names)
    self._extra_keys = list(names - set(required))
    self._storage_types = [make_replay_element(k, kwargs[k]) for k in required + self._extra_keys]
    self._key_to_replay_elem = {e.name: e for e in self.get_storage_signature()}
    self._create_storage()
    self._transition_elements = self.get_transition_elements()
    self._batch_type = collections.namedtuple("batch_type", self._transition_elements)
    self._zero_transition = {e.name: e.metadata.zero_example() for e in self._storage_types}
    self._initialized_buffer = True


def create_storage(self, ctor):
    for element in self.get_storage_signature():
        self._store[element.name] = element.metadata.create_storage(self._replay_capacity)


def elements(self, ctor):
    extra = []
    for name in self._extra_keys:
        extra.append(f"{name}")
        extra.append(f"next_{name}")
    return [
        "state", "action", "reward", "next_state", "next_action", "next_reward", "terminal", "indices", "step",
    ] + extra


def sample(self, ctor, batch_size=None, indices=None):
    n, cap = self._update_horizon, self._replay_capacity
    if batch_size is None:
        batch_size = self._batch_size
    if indices is None:
        indices = self.sample_index_batch(batch_size)
    else:
        indices = indices.type(dtype=torch.int64)
    window = (indices.unsqueeze(1) + torch.arange(n)) % cap
    steps = self._get_steps(window)
    timeline = self._return_as_timeline_format
    following = (indices + 1) % cap if timeline else (indices + steps) % cap
    lengths = steps if timeline else None
    out = []
    for name in self._transition_elements:
        if name == "state":
            col = self._get_batch_for_indices("observation", indices)
        elif name == "next_state":
            col = self._get_batch_for_indices("observation", following, lengths)
        elif name == "indices":
            col = indices
        elif name == "terminal":
            col = self._store["terminal"][(indices + steps - 1) % cap].to(torch.bool)
        elif name == "reward":
            if timeline or self._return_everything_as_stack:
                col = self._get_batch_for_indices("reward", indices, lengths)
            else:
                col = self._reduce_multi_step_reward(window, steps)
        elif name == "step":
            col = steps
        elif name in self._store:
            col = self._get_batch_for_indices(name, indices)
        elif name.startswith("next_"):
            col = self._get_batch_for_indices(name[len("next_"):], following, lengths)
        else:
            col = None
        if isinstance(col, torch.Tensor) and col.ndim == 1:
            col = col.unsqueeze(1)
        out.append(col)
    return self._batch_type(*out)


def columns(self, ctor, key, indices, steps=None):
    if steps is None:
        return self._get_stack_for_indices(key, indices)
    return [
        self._get_stack_for_indices(key, torch.arange(a, a + k)) for a, k in zip(indices.tolist(), steps.tolist())
    ]


def reward(self, ctor, window, steps):
    within = torch.arange(self._update_horizon) < steps.unsqueeze(1)
    return (self._store["reward"][window] * self._decays * within).sum(dim=1)


def stack(self, ctor, key, indices):
    at = (indices.unsqueeze(1) + torch.arange(-self._stack_size + 1, 1)) % self._replay_capacity
    return self._key_to_replay_elem[key].metadata.sample_to_output(self._store[key][at])


def steps(self, ctor, window):
    ends = self._store["terminal"][window].to(torch.bool)
    ends[:, -1] = True
    weight = torch.arange(ends.shape[1] + 1, 1, -1)
    return torch.argmax(ends.float() * weight, dim=1) + 1


def save(self, ctor, checkpoint_dir, iteration_number):
    if not os.path.exists(checkpoint_dir):
        return
    items = self._return_checkpointable_elements()
    for attr in items:
        with open(self._generate_filename(checkpoint_dir, attr, iteration_number), "wb") as f:
            with gzip.GzipFile(fileobj=f) as out:
                if attr.startswith("$store$_"):
                    np.save(out, self._store[attr[len("$store$_"):]].numpy(), allow_pickle=False)
                elif isinstance(self.__dict__[attr], np.ndarray):
                    np.save(out, self.__dict__[attr], allow_pickle=False)
                else:
                    pickle.dump(self.__dict__[attr], out)
        stale = iteration_number - 4
        if stale >= 0:
            try:
                os.remove(self._generate_filename(checkpoint_dir, attr, stale))
            except FileNotFoundError:
                pass


def load(self, ctor, checkpoint_dir, suffix):
    items = self._return_checkpointable_elements()
    for attr in items:
        if not os.path.exists(self._generate_filename(checkpoint_dir, attr, suffix)):
            raise FileNotFoundError()
    for attr in items:
        with open(self._generate_filename(checkpoint_dir, attr, suffix), "rb") as f:
            with gzip.GzipFile(fileobj=f) as src:
                if attr.startswith("$store$_"):
                    self._store[attr[len("$store$_"):]] = torch.from_numpy(np.load(src, allow_pickle=False))
                elif isinstance(self.__dict__[attr], np.ndarray):
                    self.__dict__[attr] = np.load(src, allow_pickle=False)
                else:
                    self.__dict__[attr] = pickle.load(src)


def checkpointable(self, ctor):
    out = {}
    for name, member in self.__dict__.items():
        if name == "_store":
            for key, array in self._store.items():
                out["$store$_" + key] = array
        elif not name.startswith("_"):
            out[name] = member
    return out


def filename(self, ctor, checkpoint_dir, name, suffix):
    return os.path.join(checkpoint_dir, "{}_ckpt.{}.gz".format(name, suffix))


# element storage


def dense_example(self, ctor, name, example):
    arr = np.array(example)
    dtype = arr.dtype
    if dtype == np.dtype("float64"):
        dtype = np.dtype("float32")
    res = self(arr.shape, dtype)
    res.validate(name, example)
    return res


def dense_zero(self, ctor):
    return np.zeros(self.shape, dtype=self.dtype)


def dense_validate(self, ctor, name, input):
    assert not isinstance(input, (dict, torch.Tensor))
    arr = np.array(input)
    dtype = arr.dtype
    if dtype == np.dtype("float64"):
        dtype = np.dtype("float32")
    assert arr.shape == self.shape
    assert dtype == self.dtype


def dense_in(self, ctor, input):
    return torch.from_numpy(np.array(input, dtype=self.dtype))


def dense_out(self, ctor, sample):
    perm = [0] + list(range(2, len(self.shape) + 2)) + [1]
    out = sample.permute(*perm)
    if out.shape[-1] == 1:
        out = out.squeeze(-1)
    return out


def ids_zero(self, ctor):
    return {k: [] for k in self.keys}


def ids_out(self, ctor, sample):
    result = {}
    for k in self.keys:
        starts, ids = [], []
        for elem in sample.squeeze(1):
            starts.append(len(ids))
            ids.extend([] if elem is None else elem[k])
        result[k] = (torch.tensor(starts, dtype=torch.int32), torch.tensor(ids, dtype=torch.int64))
    return result


def scored_zero(self, ctor):
    return {k: ([], []) for k in self.keys}


def scored_out(self, ctor, sample):
    result = {}
    for k in self.keys:
        starts, ids, scores = [], [], []
        for elem in sample.squeeze(1):
            starts.append(len(ids))
            if elem is not None:
                ids.extend(elem[k][0])
                scores.extend(elem[k][1])
        result[k] = (
            torch.tensor(starts, dtype=torch.int32),
            torch.tensor(ids, dtype=torch.int64),
            torch.tensor(scores, dtype=torch.float32),
        )
    return result


def same(self, ctor, x):
    return x


def dense_storage(self, ctor, capacity):
    array_shape = [capacity, *self.shape]
    if self.dtype == np.bool:
        return torch.zeros(array_shape, dtype=torch.bool)
    return torch.from_numpy(np.empty(array_shape, dtype=self.dtype))


def object_storage(self, ctor, capacity):
    return np.empty((capacity,), dtype=np.object)


def ids_example(self, ctor, name, example):
    made = self(list(example.keys()))
    made.validate(name, example)
    return made


def ids_validate(self, ctor, name, input):
    assert isinstance(input, dict)
    for k, v in input.items():
        assert isinstance(k, str)
        assert k in self.keys
        arr = np.array(v)
        if len(arr) > 0:
            assert arr.dtype == np.int64


def scored_validate(self, ctor, name, input):
    assert isinstance(input, dict)
    for k, v in input.items():
        assert isinstance(k, str)
        assert k in self.keys
        assert isinstance(v, tuple) and len(v) == 2
        ids = np.array(v[0])
        scores = np.array(v[1])
        assert len(ids) == len(scores)
        if len(ids) > 0:
            assert ids.dtype == np.int64
            assert scores.dtype in (np.float32, np.float64)


def full(self, ctor):
    return self.add_count >= self._replay_capacity


def add_signature(self, ctor):
    return self.get_storage_signature()


def storage_signature(self, ctor):
    return self._storage_types


def zero_padding(self, ctor):
    self._add(**self._zero_transition)


def element_for(name, example):
    made = None
    for cls in [DenseMetadata, IDListMetadata, IDScoreListMetadata]:
        try:
            made = cls.create_from_example(name, example)
            break
        except Exception:
            pass
    if made is None:
        raise ValueError("no type")
    return ReplayElement(name, made)
