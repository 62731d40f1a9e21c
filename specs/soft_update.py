"""Reference definition: Polyak averaging."""
import torch


def step(self, ctor, closure):
    loss = None
    if closure is not None:
        loss = closure()
    for group in self.param_groups:
        p = group["params"]
        half = len(p) // 2
        for k in range(half):
            t, s = p[k], p[half + k]
            if t is not s:
                t.data.copy_((1.0 - group["tau"]) * t.data + group["tau"] * s.data)
    return loss


def init(self, ctor):
    targets, sources = list(ctor.target_params), list(ctor.source_params)
    if len(targets) != len(sources):
        raise ValueError()
    for t, s in zip(targets, sources):
        if t.shape != s.shape:
            raise ValueError()
    for group in self.param_groups:
        if group["tau"] > 1.0 or group["tau"] < 0.0:
            raise ValueError()


def legacy(self, ctor, network, target, tau):
    for t, s in zip(target.parameters(), network.parameters()):
        if t is not s:
            t.data.copy_(tau * s.data + (1.0 - tau) * t.data)


def maybe_legacy(self, ctor, network, target, tau, every):
    if self.minibatch % every == 0:
        self._soft_update(network, target, tau)
