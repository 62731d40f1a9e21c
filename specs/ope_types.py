"""Reference definitions: keyed value containers of the off-policy library."""
from copy import deepcopy
from typing import Mapping, Sequence

import numpy as np
import torch
from reagent.ope.estimators.types import Action, ActionDistribution, TypeWrapper
from torch import Tensor


# ---- wrapped values
def as_int(self, ctor):
    try:
        return int(self.value)
    except Exception:
        raise ValueError("not an index")


def hashed(self):
    if isinstance(self.value, int) or isinstance(self.value, float) or isinstance(self.value, tuple):
        return hash(self.value)
    if isinstance(self.value, Tensor):
        return hash(tuple(self.value.numpy().flatten()))
    if isinstance(self.value, np.ndarray):
        return hash(tuple(self.value.flatten()))
    if isinstance(self.value, list):
        return hash(tuple(self.value))
    raise TypeError


def equal(self, other):
    if not isinstance(other, TypeWrapper):
        return False
    if isinstance(self.value, Tensor):
        if isinstance(other.value, Tensor):
            return torch.equal(self.value, other.value)
        raise TypeError("tensor against something else")
    if isinstance(self.value, np.ndarray):
        return np.array_equal(self.value, other.value)
    return self.value == other.value


def less(self, other):
    if not isinstance(other, TypeWrapper):
        return False
    if isinstance(self.value, Tensor) and isinstance(other.value, Tensor):
        return torch.lt(self.value, other.value).prod().item()
    if isinstance(self.value, np.ndarray) and isinstance(other.value, np.ndarray):
        return np.less(self.value, other.value).prod()
    return self.value < other.value


# ---- maps from key to value
def objects_init(self, ctor, values):
    if isinstance(values, Sequence):
        self._values = list(values)
    elif isinstance(values, Mapping):
        self._key_to_index = dict(zip(values.keys(), range(len(values))))
        self._index_to_key = list(values.keys())
        self._values = list(values.values())
    else:
        raise TypeError("unsupported")


def position(self, key):
    return key if self._key_to_index is None else self._key_to_index[key]


def get(self, ctor, key):
    return self._values[position(self, key)]


def get_value(self, ctor, key):
    return self._values[position(self, key)].item()


def put(self, ctor, key, value):
    if self._key_to_index is not None:
        self._values[self._key_to_index[key]] = value
    else:
        self._values[key] = value
    self._reset()


def pairs(self, ctor):
    if self._key_to_index is not None:
        return ((k, self._to_value(self._values[i])) for k, i in self._key_to_index.items())
    return ((self._to_key(i), self._to_value(v)) for i, v in enumerate(self._values))


def index_of(self, ctor, key):
    if self._key_to_index is None:
        try:
            i = int(key)
            if 0 <= i < len(self):
                return i
            raise ValueError("not valid")
        except Exception:
            raise ValueError("not valid")
    try:
        return self._key_to_index[key]
    except Exception:
        raise ValueError("not valid")


def keys(self, ctor):
    if self._keys is not None:
        return self._keys
    if self._key_to_index is not None:
        return list(self._key_to_index.keys())
    return [self._to_key(i) for i in range(len(self))]


def numbers(values):
    if isinstance(values, Tensor):
        return values.to(dtype=torch.double)
    if isinstance(values, np.ndarray):
        return torch.as_tensor(values, dtype=torch.double)
    return torch.tensor(values, dtype=torch.double)


def values_init(self, ctor, values):
    if isinstance(values, Tensor) or isinstance(values, np.ndarray) or isinstance(values, Sequence):
        self._values = numbers(values)
    elif isinstance(values, Mapping):
        self._key_to_index = dict(zip(values.keys(), range(len(values))))
        self._index_to_key = list(values.keys())
        self._values = torch.tensor(list(values.values()), dtype=torch.double)
    else:
        raise TypeError("unsupported")


def reset(self, ctor):
    self._unzipped = None
    self._keys = None
    self._probabilities = None
    self._is_normalized = False
    self._sorted = {}


def order(self, ctor, descending=True):
    if descending not in self._sorted:
        vals, ids = torch.sort(self._values, descending=descending)
        if self._index_to_key is not None:
            self._sorted[descending] = ([self._index_to_key[i.item()] for i in ids], vals.detach())
        else:
            self._sorted[descending] = ([self._to_key(i.item()) for i in ids], vals.detach())
    return self._sorted[descending]


def replaced(self, ctor, values):
    other = deepcopy(self)
    if isinstance(values, Tensor) or isinstance(values, np.ndarray) or isinstance(values, Sequence):
        other._values = numbers(values)
    elif isinstance(values, Mapping):
        for k, v in values.items():
            other._values[k if other._key_to_index is None else other._key_to_index[k]] = v
    else:
        raise TypeError("unsupported")
    other._reset()
    return other


def normalized(self, ctor):
    if self._is_normalized:
        if self._probabilities is None:
            raise ValueError("invalid distribution")
    else:
        self._is_normalized = True
        self._probabilities = None
        try:
            d = self._values.detach().clamp(min=0.0)
            self._probabilities = d / d.sum()
        except ZeroDivisionError:
            pass


def probability(self, ctor, key):
    self._normalize()
    if self._probabilities is None:
        return 0.0
    return self._probabilities[position(self, key)].item()


def sample(self, ctor, size=1):
    self._normalize()
    if self._index_to_key is not None:
        return [self._index_to_key[k.item()] for k in torch.multinomial(self._probabilities, size)]
    return [self._to_key(k.item()) for k in torch.multinomial(self._probabilities, size)]


def greedy(self, ctor, size=1):
    return self.sort()[0][:size]


# ---- item lists
def items_init(self, ctor):
    if isinstance(ctor.items, int):
        self._items = [self._new_item(i) for i in range(ctor.items)]
        self._reverse_lookup = None
    else:
        self._items = ctor.items
        self._reverse_lookup = {v: i for i, v in enumerate(ctor.items)}


def item_index(self, ctor, item):
    if self._reverse_lookup is None:
        i = int(item.value)
        if 0 <= i < len(self._items):
            return i
        raise ValueError("not valid")
    try:
        return self._reverse_lookup[item]
    except Exception:
        raise ValueError("not valid")


def as_count(self, ctor):
    return len(self._items) if self._reverse_lookup is None else 0


def fill(self, ctor, values):
    if self._reverse_lookup is None:
        if isinstance(values, Mapping):
            return [values[a] if a in values else 0.0 for a in self._items]
        out = [0.0] * len(self._items)
        n = min(len(self._items), len(values))
        out[:n] = values[:n]
        return out
    out = {}
    if isinstance(values, Mapping):
        for a in self._items:
            out[a] = values[a] if a in values else 0.0
        return out
    for a in self._items:
        try:
            out[a] = values[self._reverse_lookup[a]]
        except Exception:
            out[a] = 0.0
    return out


def distribution(self, ctor, dist):
    return ActionDistribution(self.fill(dist))


def action_of(self, ctor, k):
    return Action(k)


def subsample(x, y, weight=None, num_samples=0, fortran_order=False):
    a = x.numpy()
    if fortran_order:
        a = a.reshape(x.shape, order="F")
    b = y.numpy()
    w = weight.numpy() if weight is not None else None
    if num_samples > 0 and num_samples < x.shape[0]:
        c = np.random.choice(x.shape[0], num_samples, replace=False)
        a = a[c, :]
        b = b[c]
        w = w[c] if w is not None else None
    return a, b, w


# ---- construction and small accessors
def objects_built(self, ctor):
    self._key_to_index = None
    self._index_to_key = None
    self._init_values(ctor.values)
    self._reset()
    return self


def value_of(self, ctor, v):
    return v.item()


def wrapped_int(self):
    try:
        return int(self.value)
    except Exception:
        raise ValueError("no")


def different(self, other):
    return not self.__eq__(other)


def item_at(self, ctor, i):
    return self._items[i]


def item_iter(self, ctor):
    return iter(self._items)


def policy_built(self, ctor):
    self._action_space = ctor.action_space
    self._device = ctor.device
    return self


def queried(self, ctor, context):
    return self._query(context)


def action_space(self, ctor):
    return self._action_space


def untrained(self, ctor):
    self._model = None
    return self


def space_of(self, ctor):
    return self._items
