"""Reference semantics of optimizer and scheduler construction."""
import inspect

import torch
from reagent.optimizer.utils import is_torch_lr_scheduler, is_torch_optimizer
from reagent.optimizer.optimizer import Optimizer
from reagent.optimizer.union import classes


def step(self, closure):
    self.optimizer.step(closure=closure)
    for s in self.lr_schedulers:
        s.step()


def passthrough(self, attr):
    return getattr(self.optimizer, attr)


def make_optimizer(self, params):
    kind = getattr(torch.optim, type(self).__name__)
    assert is_torch_optimizer(kind)
    args = {k: getattr(self, k) for k in inspect.signature(kind).parameters if k != "params"}
    optimizer = kind(params=params, **args)
    return Optimizer(optimizer=optimizer, lr_schedulers=[s.make_from_optimizer(optimizer) for s in self.lr_schedulers])


def make_scheduler(self, optimizer):
    kind = getattr(torch.optim.lr_scheduler, type(self).__name__)
    assert is_torch_lr_scheduler(kind)
    args = {k: getattr(self, k) for k in inspect.signature(kind).parameters if k != "optimizer"}
    return kind(optimizer=optimizer, **args)


def make_scheduler_lr_lambda(self, optimizer):
    kind = getattr(torch.optim.lr_scheduler, type(self).__name__)
    assert is_torch_lr_scheduler(kind)
    args = {k: getattr(self, k) for k in inspect.signature(kind).parameters if k != "optimizer"}
    f = args.get("lr_lambda")
    if type(f) is str:
        args["lr_lambda"] = eval(f)
    return kind(optimizer=optimizer, **args)


def make_scheduler_scale_fn(self, optimizer):
    kind = getattr(torch.optim.lr_scheduler, type(self).__name__)
    assert is_torch_lr_scheduler(kind)
    args = {k: getattr(self, k) for k in inspect.signature(kind).parameters if k != "optimizer"}
    f = args.get("scale_fn")
    if type(f) is str:
        args["scale_fn"] = eval(f)
    return kind(optimizer=optimizer, **args)


def strict_subclass(a, b):
    return inspect.isclass(a) and inspect.isclass(b) and issubclass(a, b) and a != b


def torch_optimizer(cls):
    return (inspect.isclass(cls) and inspect.isclass(torch.optim.Optimizer) and issubclass(cls, torch.optim.Optimizer)
            and cls != torch.optim.Optimizer)


def torch_scheduler(cls):
    b = torch.optim.lr_scheduler._LRScheduler
    return inspect.isclass(cls) and inspect.isclass(b) and issubclass(cls, b) and cls != b


def optimizer_names():
    return [n for n in dir(torch.optim) if is_torch_optimizer(getattr(torch.optim, n))]


def scheduler_names():
    return [n for n in dir(torch.optim.lr_scheduler) if is_torch_lr_scheduler(getattr(torch.optim.lr_scheduler, n))]


def union_make(self, params):
    return self.value.make_optimizer(params)


def default(self, **kwargs):
    if kwargs == {}:
        return self(Adam=classes["Adam"]())
    return self(Adam=classes["Adam"](**kwargs))
