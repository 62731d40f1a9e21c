"""Trainers, networks, preprocessors, policies and evaluators never alter what they are given."""
import ast

from sa import driver as D
from sa import effects as E
from sa.index import Class, Func, deco_name

RULE = "no write reaches the storage of an argument (interprocedural may-alias and effect analysis)"
PACKAGES = ("training", "models", "preprocessing", "evaluation", "gym.policies", "gym.preprocessors", "gym.datasets", "gym.types", "prediction", "model_utils",
            "ranking", "samplers", "test_utils", "mab", "ope.estimators.sequential_estimators", "ope.estimators.contextual_bandits_estimators", "ope.test",
            "reporting", "net_builder", "core.types", "types", "replay_memory")
# containers of values: what they are given is their storage
STORAGE = ("Objects",)
# arguments a method exists to change, or that are numbers without annotation
OWNED = {
    ("SumTree", "sample", "query_value"): "a number",
    ("RLTrainer", "*", "optimizer"): "the optimizer is stepped",
    ("BasicReplayBufferInserter", "*", "replay_buffer"): "transitions are added to it",
    ("RecSimReplayBufferInserter", "*", "replay_buffer"): "transitions are added to it",
    ("WeightedSequentialDoublyRobustEstimator", "normalize_importance_weights", "importance_weights"): "working array of the estimator",
}
# functions whose purpose is to change their argument, or whose argument is the caller's own working array
CHANGES = {
    ("dataclass", "_cls"): "class decorator",
    ("observable", "cls"): "class decorator",
    ("gaussian_fill_w_gain", "tensor"): "initialises the tensor in place",
    ("_calculate_slot_expectation", "d_out"): "output argument",
    ("mask_logits_by_idx", "logits"): "working array of the decoder",
    ("replay_buffer_to_pre_timeline_df", "replay_buffer"): "masks are computed on gathered copies",
    ("NDCGSlateMetric", "item_rewards"): "fills its cache of the sorted order",
}
# dictionaries a method fills in: the entries may be replaced, their tensors may not change
FILLED = {("reagent.preprocessing.transforms", "data")}
SKIP = ("Optimizer", "Module", "ModelBase")
CONFIG = ("Parameters", "Config", "Params", "Dict", "List", "dict", "list", "Union", "Sequence", "Mapping", "Tuple")


def run(cx):
    ix = cx.ix
    methods(cx)
    configs(cx)
    constructors(cx)
    functions(cx)
    shared(cx)


def config_like(ann):
    if isinstance(ann, ast.Subscript):
        n = deco_name(ann.value).split(".")[-1]
        if n == "Optional":
            return config_like(ann.slice)
        return n in ("Dict", "List", "Sequence", "Mapping")
    if isinstance(ann, (ast.Name, ast.Attribute)):
        n = deco_name(ann).split(".")[-1]
        return n.endswith(("Parameters", "Config", "Params", "BoostMap")) or n in ("dict", "list")
    return False


def tracked(ix, f, p):
    if p.annotation is None:
        return True
    a = p.annotation
    if isinstance(a, ast.Subscript) and deco_name(a.value).split(".")[-1] == "Optional":
        a = a.slice
    n = deco_name(a).split(".")[-1] if isinstance(a, (ast.Name, ast.Attribute)) else ""
    if n in E.NUMBERS or n.endswith(SKIP):
        return False
    k = D._ann_class(ix, f.module, p.annotation)
    if k is not None and ({"Module", "ModelBase", "LightningModule"} & {b.split(".")[-1] for b in ix.basenames(k)}):
        return False
    return True


def methods(cx):
    """every public method of the classes of these packages, for every argument that is not a number or a network"""
    ix = cx.ix
    n = visited = 0
    for m in ix.all_modules():
        if not any(m.name == "reagent." + p or m.name.startswith("reagent." + p + ".") for p in PACKAGES):
            continue
        for c in m.syms.values():
            if not isinstance(c, Class):
                continue
            for name, f in sorted(c.methods.items()):
                if name.startswith("_") and name != "__call__":
                    continue
                ps = f.node.args.args + f.node.args.kwonlyargs
                if not f.is_static:
                    ps = ps[1:]
                ps = [p for p in ps if tracked(ix, f, p) and (c.name, name, p.arg) not in OWNED and (c.name, "*", p.arg) not in OWNED]
                if not ps:
                    continue
                an = E.Analysis(ix)
                an.run(f, {p.arg: E.V({p.arg: 1 if (m.name, p.arg) in FILLED else 2}, D._ann_class(ix, m, p.annotation) if p.annotation is not None else None) for p in ps},
                       None if f.is_static else c)
                n += 1
                visited += len(an.visited)
                bad = {}
                for e in an.effects.values():
                    bad.setdefault(e.origin, e)
                for p in ps:
                    e = bad.get(p.arg)
                    cx.fact(RULE, f.qual, "argument %s keeps its value" % p.arg, e is None,
                            "%s: %s" % (e.func, e.text) if e else "", e.loc if e else f.loc())
    cx.need(n > 200, "public methods")
    cx.coverage["entry points"] = n
    cx.coverage["function bodies walked"] = visited


def configs(cx):
    """configuration objects, lists and dictionaries a component is built from"""
    ix = cx.ix
    done = 0
    for m in ix.all_modules():
        for c in m.syms.values():
            init = ix.find_method(c, "__init__") if isinstance(c, Class) and c.module is m else None
            if init is None or any(b.split(".")[-1] in STORAGE for b in ix.basenames(c) | {c.name}):
                continue
            ps = [p for p in (init.node.args.args + init.node.args.kwonlyargs)[1:] if p.annotation is not None and config_like(p.annotation)]
            if not ps:
                continue
            an = E.Analysis(ix)
            an.run(init, {p.arg: E.V({p.arg: 2}, D._ann_class(ix, init.module, p.annotation)) for p in ps}, c)
            use(ix, an, c)
            bad = {}
            for e in an.effects.values():
                bad.setdefault(e.origin, e)
            for p in ps:
                e = bad.get(p.arg)
                done += 1
                cx.fact(RULE, c.qual, "configuration %s keeps its value" % p.arg, e is None,
                        "%s: %s" % (e.func, e.text) if e else "", e.loc if e else init.loc())
    cx.need(done > 60, "configuration arguments")
    cx.coverage["configuration arguments"] = done


def effects_of(ix, f, ps, c):
    an = E.Analysis(ix)
    an.run(f, {p.arg: E.V({p.arg: 2}, D._ann_class(ix, f.module, p.annotation) if p.annotation is not None else None) for p in ps}, c)
    bad = {}
    for e in an.effects.values():
        bad.setdefault(e.origin, e)
    return bad


def constructors(cx):
    """building a component leaves the objects it is built from as they were"""
    ix = cx.ix
    done = 0
    for m in ix.all_modules():
        for c in m.syms.values():
            if not isinstance(c, Class) or c.module is not m or "__init__" not in c.methods:
                continue
            f = c.methods["__init__"]
            ps = [p for p in (f.node.args.args + f.node.args.kwonlyargs)[1:] if tracked(ix, f, p) and (c.name, p.arg) not in CHANGES]
            if not ps:
                continue
            bad = effects_of(ix, f, ps, c)
            for p in ps:
                e = bad.get(p.arg)
                done += 1
                cx.fact(RULE, f.qual, "constructor argument %s keeps its value" % p.arg, e is None,
                        "%s: %s" % (e.func, e.text) if e else "", e.loc if e else f.loc())
    cx.need(done > 150, "constructor arguments")
    cx.coverage["constructor arguments"] = done


def functions(cx):
    """module-level functions leave their arguments as they were"""
    ix = cx.ix
    done = 0
    for m in ix.all_modules():
        for f in m.syms.values():
            if not isinstance(f, Func) or f.module is not m:
                continue
            ps = [p for p in f.node.args.args + f.node.args.kwonlyargs if tracked(ix, f, p) and (f.name, p.arg) not in CHANGES]
            if not ps:
                continue
            bad = effects_of(ix, f, ps, None)
            for p in ps:
                e = bad.get(p.arg)
                done += 1
                cx.fact(RULE, f.qual, "argument %s keeps its value" % p.arg, e is None,
                        "%s: %s" % (e.func, e.text) if e else "", e.loc if e else f.loc())
    cx.need(done > 150, "arguments of functions")
    cx.coverage["arguments of functions"] = done


def shared(cx):
    """objects kept on a module or a class serve every user of it: no function and no method changes them"""
    ix = cx.ix
    done = 0
    for m in ix.all_modules():
        for x in m.syms.values():
            if isinstance(x, Func) and x.module is m:
                an = E.Analysis(ix, globals=True)
                an.run(x, {}, None)
            elif isinstance(x, Class) and x.module is m:
                an = life(ix, x)
            else:
                continue
            done += 1
            e = min([e for e in an.effects.values() if not own_state(ix, e)], key=lambda e: str(e.loc), default=None)
            cx.fact(RULE, x.qual, "shared objects keep their value", e is None,
                    "%s: %s (the shared %s)" % (e.func, e.text, e.origin) if e else "", e.loc if e else "%s:%d" % (m.path, x.node.lineno))
    cx.need(done > 400, "functions and classes")
    cx.coverage["functions and classes checked for shared objects"] = done


def own_state(ix, e):
    """process-wide state a class keeps for itself and changes through its own class methods"""
    c, f = ix.get(e.origin.rpartition(".")[0]), e.fn
    return isinstance(c, Class) and f.cls is c and "classmethod" in f.deconames


def life(ix, c):
    """construct an object, then use it"""
    an = E.Analysis(ix, globals=True)
    init = ix.find_method(c, "__init__")
    if init is not None:
        an.run(init, {}, c)
    use(ix, an, c)
    return an


def use(ix, an, c):
    """all methods of an object, twice: what one stores another may change"""
    for _ in range(2):
        before = {k: v.key() for k, v in an.selfstores.items()}
        seen = {"__init__"}
        for k in ix.mro(c):
            for name, f in k.methods.items():
                if name not in seen and not f.is_static:
                    seen.add(name)
                    an.memo = {}
                    an.run(f, {}, c)
        if before == {k: v.key() for k, v in an.selfstores.items()}:
            break
