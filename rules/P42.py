"""Optimizers and schedulers are built with the configured hyper-parameters."""
import ast

O = "reagent.optimizer."


def run(cx):
    n = dict(init=False)
    cx.same(O + "optimizer.Optimizer.step", "optim.step", lambda p: p.calls("step", label="order of steps", grad=True), watch={"step"})
    cx.same(O + "optimizer.Optimizer.__getattr__", "optim.passthrough", "ret")
    op = {"is_torch_optimizer", "is_torch_lr_scheduler"}
    cx.same(O + "optimizer.OptimizerConfig.make_optimizer", "optim.make_optimizer", "ret", "raises", opaque=op | {"make_from_optimizer"}, **n)
    s = O + "scheduler.LearningRateSchedulerConfig.make_from_optimizer"
    cx.same(s, "optim.make_scheduler", "ret", "raises", opaque=op, **n)
    u = O + "uninferrable_schedulers."
    for c, spec in ("LambdaLR", "lr_lambda"), ("MultiplicativeLR", "lr_lambda"), ("CyclicLR", "scale_fn"):
        cx.same(s, "optim.make_scheduler_" + spec, "ret", "raises", cls=u + c, opaque=op, **n)
    cx.same(O + "utils.is_strict_subclass", "optim.strict_subclass", "ret")
    cx.same(O + "utils.is_torch_optimizer", "optim.torch_optimizer", "ret")
    cx.same(O + "utils.is_torch_lr_scheduler", "optim.torch_scheduler", "ret")
    cx.same(O + "union.get_torch_optimizers", "optim.optimizer_names", "ret", opaque=op)
    cx.same(O + "scheduler_union.get_torch_lr_schedulers", "optim.scheduler_names", "ret", opaque=op)
    cx.same(O + "union.Optimizer__Union.make_optimizer", "optim.union_make", "ret", opaque={"make_optimizer"}, **n)
    cx.same(O + "union.Optimizer__Union.default", "optim.default", "ret", **n)

    tables(cx, O + "uninferrable_optimizers", O + "optimizer.OptimizerConfig", OPTIMIZERS)
    tables(cx, O + "uninferrable_schedulers", O + "scheduler.LearningRateSchedulerConfig", SCHEDULERS)


REQUIRED = "required"
OPTIMIZERS = {
    "Adam": dict(lr=1e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=0, amsgrad=False),
    "SGD": dict(lr=1e-3, momentum=0, weight_decay=0, dampening=0, nesterov=False),
    "AdamW": dict(lr=1e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=0.01, amsgrad=False),
    "SparseAdam": dict(lr=1e-3, betas=(0.9, 0.999), eps=1e-8),
    "Adamax": dict(lr=1e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=0),
    "LBFGS": dict(lr=1, max_iter=20, max_eval=None, tolerance_grad=1e-7, tolerance_change=1e-9, history_size=100, line_search_fn=None),
    "Rprop": dict(lr=0.01, etas=(0.5, 1.2), step_sizes=(1e-6, 50)),
}
_COMMON = dict(last_epoch=-1, verbose=False)
SCHEDULERS = {
    "LambdaLR": dict(_COMMON, lr_lambda=REQUIRED),
    "MultiplicativeLR": dict(_COMMON, lr_lambda=REQUIRED),
    "CyclicLR": dict(_COMMON, base_lr=REQUIRED, max_lr=REQUIRED, step_size_up=2000, step_size_down=None, mode="triangular", gamma=1.0,
                     scale_fn=None, scale_mode="cycle", cycle_momentum=True, base_momentum=0.8, max_momentum=0.9),
    "StepLR": dict(_COMMON, step_size=REQUIRED, gamma=0.1),
    "MultiStepLR": dict(_COMMON, milestones=REQUIRED, gamma=0.1),
    "ExponentialLR": dict(_COMMON, gamma=REQUIRED),
    "CosineAnnealingLR": dict(_COMMON, T_max=REQUIRED, eta_min=0),
    "OneCycleLR": dict(_COMMON, max_lr=REQUIRED, total_steps=None, epochs=None, steps_per_epoch=None, pct_start=0.3, anneal_strategy="cos",
                       cycle_momentum=True, base_momentum=0.85, max_momentum=0.95, div_factor=25.0, final_div_factor=10000.0, three_phase=False),
    "CosineAnnealingWarmRestarts": dict(_COMMON, T_0=REQUIRED, T_mult=1, eta_min=0),
}


def fields_of(cx, cls):
    """declared fields of a configuration class, inherited ones first: {name: literal default or REQUIRED}"""
    out = {}
    for c in reversed(cx.ix.mro(cls)):
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                try:
                    out[s.target.id] = REQUIRED if s.value is None else ast.literal_eval(s.value)
                except ValueError:
                    out[s.target.id] = ("expression", ast.unparse(s.value))
    return out


def tables(cx, module, base, table):
    """configuration classes written by hand declare the hyper-parameters of the library class with its documented defaults"""
    for name, want in sorted(table.items()):
        cls = cx.ix.get(module + "." + name)
        q = module + "." + name
        if cls is None:
            cx.fact("hyper-parameter table", q, "declared", False, "configuration class not found", undecided=True)
            continue
        where = "%s:%d" % (cls.module.relpath, cls.node.lineno)
        inherited = set(fields_of(cx, cx.ix.get(base)))
        got = {k: v for k, v in fields_of(cx, cls).items() if k not in inherited}
        lost = sorted(set(want) - set(got))
        cx.fact("hyper-parameter table", q, "no hyper-parameter is missing", not lost, "missing " + ", ".join(lost), loc=where)
        for k, v in sorted(want.items()):
            if k in got and not (isinstance(got[k], tuple) and got[k][:1] == ("expression",)):
                cx.fact("hyper-parameter table", q, "default of " + k, got[k] == v, "found %r, required %r" % (got[k], v), loc=where)
        cx.fact("hyper-parameter table", q, "registered under its own name", cx.ix.get(base) in cx.ix.mro(cls),
                "does not extend " + base, loc=where)
