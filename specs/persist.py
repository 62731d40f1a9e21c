"""Reference definitions: state that is saved, serialised, cached or observed comes back as it was."""
import json
import pickle
from collections import OrderedDict
from dataclasses import asdict, fields, is_dataclass
from functools import partial
from typing import Union

import cloudpickle
import torch
from reagent.core.multiprocess_utils import deserialize_and_run
from reagent.json_serialize import from_json, prepare_for_json


def policy_save(self, ctor, path):
    try:
        with open(path, "wb") as f:
            pickle.dump((self._action_space, self._epsilon, self._state_space), f)
    except Exception:
        return False
    return True


def policy_load(self, ctor, path):
    try:
        with open(path, "rb") as f:
            self._action_space, self._epsilon, self._state_space = pickle.load(f)
        n = len(self._action_space)
        self._exploitation_prob = 1.0 - self._epsilon
        self._exploration_prob = self._epsilon / n
        self._uniform_probs = [1.0 / n] * n
    except Exception:
        return False
    return True


def model_reset(self, ctor):
    self._model = None


def trained(self, ctor):
    return self._model is not None


def model_save(self, ctor, file):
    if self._model is None:
        return
    try:
        with open(file, "wb") as f:
            pickle.dump(self._model, f, protocol=pickle.HIGHEST_PROTOCOL)
    except Exception:
        pass


def model_load(self, ctor, file):
    try:
        with open(file, "rb") as f:
            self._model = pickle.load(f)
    except Exception:
        pass


def to_json(o):
    return json.dumps(prepare_for_json(o))


def plain(o):
    if isinstance(o, tuple) and hasattr(o, "_fields"):
        return {k: prepare_for_json(getattr(o, k)) for k in o._fields}
    if is_dataclass(o):
        return asdict(o)
    return o


def of_json(j, to_type):
    return from_json(json.loads(j), to_type)


def restored(j_obj, to_type):
    if j_obj is None:
        return None
    if getattr(to_type, "_fields", None) is not None:
        data = {}
        for name in j_obj.keys():
            t = to_type.__annotations__[name]
            if getattr(t, "__origin__", None) is Union:
                t = t.__args__[0]
            data[name] = from_json(j_obj[name], t)
        return to_type(**data)
    if is_dataclass(to_type):
        types = {f.name: f.type for f in fields(to_type)}
        data = {}
        for name in j_obj.keys():
            t = types[name]
            if getattr(t, "__origin__", None) is Union:
                t = t.__args__[0]
            data[name] = from_json(j_obj[name], t)
        return to_type(**data)
    if getattr(to_type, "_name", None) is not None and to_type._name == "List":
        inner = to_type.__args__[0]
        return [from_json(i, inner) for i in j_obj]
    if getattr(to_type, "_name", None) is not None and to_type._name == "Dict":
        kt = to_type.__args__[0]
        vt = to_type.__args__[1]
        return {from_json(k, kt): from_json(v, vt) for k, v in j_obj.items()}
    return j_obj


def run_remote(fn, fixed, named, *args, **kwargs):
    return cloudpickle.dumps(cloudpickle.loads(fn)(*[cloudpickle.loads(a) for a in fixed], *args,
                                                   **{k: cloudpickle.loads(v) for k, v in named.items()}, **kwargs))


def wrap_call(fn, *args, **kwargs):
    return partial(deserialize_and_run, cloudpickle.dumps(fn), [cloudpickle.dumps(a) for a in args], {k: cloudpickle.dumps(v) for k, v in kwargs.items()})


def unwrap(outputs):
    return [cloudpickle.loads(o) for o in outputs]


def observe(self, ctor, observer):
    keys = observer.get_observing_keys()
    for k in keys:
        if k in self._observers and observer not in self._observers[k]:
            self._observers[k].append(observer)
    return self


def observe_all(self, ctor, observers):
    for o in observers:
        self.add_observer(o)
    return self


def notify(self, ctor, **kwargs):
    for key, value in kwargs.items():
        if value is None:
            continue
        if self._observable_value_types[key] == torch.Tensor:
            try:
                if not isinstance(value, torch.Tensor):
                    value = torch.tensor(value)
                if len(value.shape) == 0:
                    value = value.reshape(1)
                value = value.detach()
            except Exception:
                pass
        for o in self._observers[key]:
            o.update(key, value)


def lazy_init(self, ctor):
    self._fget = ctor.fget
    self.__name__ = ctor.fget.__name__
    return self


def lazy_get(self, ctor, obj, owner):
    if obj is None:
        return None
    value = self._fget(obj)
    setattr(obj, self.__name__, value)
    return value


def with_baseline(self, ctor):
    return ["seq2slate_net", "baseline_net"] if self.baseline_net else ["seq2slate_net"]


def slate_net(self, ctor):
    return ["seq2slate_net"]


def with_value(self, ctor):
    return ["scorer", "value_net"] if self.value_net is not None else ["scorer"]


def memory_net(self, ctor):
    return ["memory_network"]


def seq_net(self, ctor):
    return ["seq2reward_network", "step_predict_network"]


def reward_net(self, ctor):
    return ["reward_net"]
