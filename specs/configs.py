"""Reference semantics of registries, unions and configuration defaults."""
from dataclasses import MISSING, Field, fields
from inspect import Parameter, isclass, signature
from typing import Optional, Union

from reagent.core.configuration import (_get_param_annotation, _hash_field, _resolve_default, make_config_class, param_hash,
                                        resolve_defaults)
from reagent.core.dataclasses import dataclass
from reagent.core.registry_meta import RegistryMeta
from torch import nn


# ------------------------------------------------------------------ registry


def register(self, ctor):
    name = ctor.name
    if not hasattr(self, "REGISTRY"):
        self.REGISTRY = {}
        self.REGISTRY_NAME = name
        self.REGISTRY_FROZEN = False
    assert not self.REGISTRY_FROZEN
    if not self.__abstractmethods__ and name != self.REGISTRY_NAME:
        key = name
        if hasattr(self, "__registry_name__"):
            key = self.__registry_name__
        assert key not in self.REGISTRY
        self.REGISTRY[key] = self


def use_fill(root, union, item):
    r = RegistryMeta.fill_union(root)(union)
    return r, union.__annotations__, root.REGISTRY_FROZEN


def fill(root, union, item):
    root.REGISTRY_FROZEN = True
    union.__annotations__ = {name: Optional[t] for name, t in root.REGISTRY.items()}
    for name in root.REGISTRY:
        setattr(union, name, None)
    return dataclass(frozen=True)(union), union.__annotations__, root.REGISTRY_FROZEN


def use_instance(root, union, item, kind):
    RegistryMeta.fill_union(root)(union)
    return union.make_union_instance(item, kind)


def instance(root, union, item, kind):
    root.REGISTRY_FROZEN = True
    c = kind or type(item)
    return union(**{getattr(c, "__registry_name__", c.__name__): item})


def union_value(self):
    chosen = [f.name for f in fields(self) if getattr(self, f.name, None)]
    assert len(chosen) == 1
    return getattr(self, chosen[0])


# ------------------------------------------------------------------ configuration classes


def annotation(p):
    if p.annotation != Parameter.empty:
        return p.annotation
    if p.default == Parameter.empty:
        raise ValueError("nothing to infer a type from")
    if p.default is None:
        raise ValueError("None")
    if isinstance(p.default, tuple) or isinstance(p.default, dict):
        raise ValueError("container")
    return type(p.default)


def resolve(val):
    if not isinstance(val, Field):
        return val
    if val.default != MISSING:
        return val.default
    if val.default_factory != MISSING:
        return val.default_factory()
    raise ValueError("no default")


def hashed(p):
    return hash(tuple(_hash_field(getattr(p, f.name)) for f in fields(p)))


def hash_field(val):
    if isinstance(val, list):
        return tuple(val)
    if isinstance(val, dict):
        return tuple(sorted(val.items()))
    return val


def use_resolve0(func, named):
    return resolve_defaults(func)(**named)


def use_resolve2(func, a, b, named):
    return resolve_defaults(func)(a, b, **named)


def resolved0(func, named):
    return resolved(func, (), named)


def resolved2(func, a, b, named):
    return resolved(func, (a, b), named)


def resolved(func, given, named):
    params = list(signature(func).parameters.values())
    if len(given) > len(params):
        raise ValueError("too many")
    for p in params[len(given):]:
        if isinstance(p.default, Field):
            if p.name not in named:
                named[p.name] = _resolve_default(p.default)
    return func(*given, **named)


def use_white(func, whitelist, cls):
    made = make_config_class(func, whitelist=whitelist)(cls)
    return made, cls.__annotations__, cls.__hash__


def use_black(func, blacklist, types, cls):
    made = make_config_class(func, blacklist=blacklist, blacklist_types=types)(cls)
    return made, cls.__annotations__, cls.__hash__


def use_plain(func, cls):
    made = make_config_class(func)(cls)
    return made, cls.__annotations__, cls.__hash__


def use_asdict(func, whitelist, cls, value):
    make_config_class(func, whitelist=whitelist)(cls)
    return cls.asdict(value)


def asdict(func, whitelist, cls, value):
    return {f.name: getattr(value, f.name) for f in fields(value)}


def declare(parameters, names, cls):
    cls.__annotations__ = {n: _get_param_annotation(parameters[n]) for n in names}
    for n in names:
        d = parameters[n].default
        if d != Parameter.empty:
            setattr(cls, n, d)
    cls.__hash__ = param_hash
    return dataclass(frozen=True)(cls), cls.__annotations__, cls.__hash__


def is_module(t, types):
    if getattr(t, "__origin__", None) is Union:
        assert len(t.__args__) == 2 and t.__args__[1] == type(None)
        t = t.__args__[0]
    if hasattr(t, "__origin__"):
        t = t.__origin__
    assert isclass(t)
    return any(issubclass(t, x) for x in types)


def eligible(p, excluded, types):
    if p.name in excluded:
        return False
    if p.annotation == Parameter.empty and p.default == Parameter.empty:
        return False
    return not is_module(_get_param_annotation(p), types)


def white(func, whitelist, cls):
    parameters = signature(func).parameters
    return declare(parameters, whitelist or [p.name for p in parameters.values() if eligible(p, set([]), [nn.Module])], cls)


def black(func, blacklist, types, cls):
    parameters = signature(func).parameters
    return declare(parameters, [p.name for p in parameters.values() if eligible(p, set(blacklist or []), types)], cls)


def plain(func, cls):
    parameters = signature(func).parameters
    return declare(parameters, [p.name for p in parameters.values() if eligible(p, set([]), [nn.Module])], cls)
