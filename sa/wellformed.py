"""Names, imports and calls of the repository resolve (syntactic scopes, class hierarchy, signatures)."""
import ast
import builtins

from sa.index import Class, Func, _fb_test, deco_name

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__class__", "reveal_type"}
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def live(node):
    """children of a node, without the branches of the proprietary environment"""
    if isinstance(node, (ast.If, ast.IfExp)):
        fb = _fb_test(node.test)
        if fb is not None:
            yield node.test
            part = node.body if fb else node.orelse
            yield from (part if isinstance(part, list) else [part])
            return
    yield from ast.iter_child_nodes(node)


def bound(body):
    """names bound by the statements of one scope"""
    out = set()
    outer = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMP):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in live(n):
            walk(c)

    for s in body:
        walk(s)
    return out - outer


def params(a):
    ns = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for v in (a.vararg, a.kwarg):
        if v:
            ns.add(v.arg)
    return ns


class Scan:
    def __init__(self, ix, module):
        self.ix = ix
        self.m = module
        self.names = 0
        self.unresolved = []
        self.calls = []  # (call node, enclosing Func or None, class or None, local names)
        self.top = bound(module.tree.body)
        self.star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(module.tree))

    def run(self):
        for s in self.m.tree.body:
            self.visit(s, [], None, None)
        return self

    def lookup(self, name, scopes):
        return any(name in s for s in scopes) or name in self.top or name in BUILTINS or self.star

    def visit(self, n, scopes, cls, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, scopes, cls, fn)
            inner = [s for s in scopes if not getattr(s, "isclass", False)] + [params(n.args) | bound(n.body)]
            for s in n.body:
                self.visit(s, inner, cls, fn or n)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.visit(d, scopes, cls, fn)
            self.visit(n.body, [s for s in scopes if not getattr(s, "isclass", False)] + [params(n.args)], cls, fn)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scopes, cls, fn)
            sc = ClassScope(bound(n.body))
            for s in n.body:
                self.visit(s, scopes + [sc], n if not scopes else None, fn)
            return
        if isinstance(n, COMP):
            inner = set()
            for g in n.generators:
                for c in ast.walk(g.target):
                    if isinstance(c, ast.Name):
                        inner.add(c.id)
            sc = scopes + [inner]
            for c in ast.iter_child_nodes(n):
                self.visit(c, sc, cls, fn)
            return
        if isinstance(n, ast.AnnAssign):
            for c in (n.target, n.value):
                if c is not None:
                    self.visit(c, scopes, cls, fn)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.names += 1
            if not self.lookup(n.id, scopes):
                self.unresolved.append((n, cls, fn))
        if isinstance(n, ast.Call):
            self.calls.append((n, cls, fn, [s for s in scopes if not getattr(s, "isclass", False)]))
        for c in live(n):
            self.visit(c, scopes, cls, fn)


class ClassScope(set):
    isclass = True


def misfit(args, call, skip):
    """why the call's arguments cannot bind to the signature, or None"""
    names = [x.arg for x in args.posonlyargs + args.args][skip:]
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if npos > len(names) and not args.vararg:
        return "%d positional arguments for %d parameters" % (npos, len(names))
    kwonly = [x.arg for x in args.kwonlyargs]
    given = set(names[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star:
            return "argument `%s` is given twice" % k.arg
        if k.arg not in names and k.arg not in kwonly and not args.kwarg:
            return "no parameter named `%s`" % k.arg
        given.add(k.arg)
    if star or dstar:
        return None
    nd = len(args.defaults)
    allpos = args.posonlyargs + args.args
    required = [x.arg for x in allpos[:len(allpos) - nd]]
    required = [r for r in required if r in names]
    required += [x.arg for x, d in zip(args.kwonlyargs, args.kw_defaults) if d is None]
    miss = [r for r in required if r not in given]
    if miss:
        return "required argument%s %s missing" % ("s" if len(miss) > 1 else "", ", ".join("`%s`" % r for r in miss))
    return None


def record_misfit(ix, c, call):
    fl = []
    for n, d, m in ix.record_fields(c):
        req = d is None
        if isinstance(d, ast.Call) and deco_name(d.func).split(".")[-1] == "field":
            kws = {k.arg: k.value for k in d.keywords}
            if isinstance(kws.get("init"), ast.Constant) and kws["init"].value is False:
                continue
            req = "default" not in kws and "default_factory" not in kws
        fl.append((n, req))
    names = [n for n, _ in fl]
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    pos = [a for a in call.args if not isinstance(a, ast.Starred)]
    if len(pos) > len(names):
        return "%d values for %d fields" % (len(pos), len(names))
    given = set(names[:len(pos)])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in names:
            return "no field named `%s`" % k.arg
        if k.arg in given and not star:
            return "field `%s` is given twice" % k.arg
        given.add(k.arg)
    if star or dstar:
        return None
    miss = [n for n, r in fl if r and n not in given]
    if miss:
        return "required field%s %s missing" % ("s" if len(miss) > 1 else "", ", ".join("`%s`" % r for r in miss))
    return None


PLAIN = {"staticmethod", "classmethod", "property", "abstractmethod", "abc.abstractmethod", "torch.no_grad", "no_grad", "observable", "wraps",
         "resolve_defaults", "torch.jit.export", "torch.jit.ignore", "torch.jit.script", "torch.jit.script_method", "torch.jit.unused", "lru_cache", "functools.lru_cache", "cached_property", "final"}
KNOWN_BASES = {"object", "ABC", "abc.ABC", "Generic", "Protocol"}


def wrapped(f):
    """decorators that may change the signature"""
    for d in f.deconames:
        if d in PLAIN or d.split(".")[-1] in PLAIN or d.endswith(".setter"):
            continue
        return True
    return False


def opaque_bases(ix, c):
    """external base classes (their members are unknown)"""
    out = set()
    for k in ix.mro(c):
        for b in k.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if ix.resolve_expr_class(k.module, b) is None and deco_name(b) not in KNOWN_BASES:
                out.add(deco_name(b))
    return out


def construct_misfit(ix, c, call):
    """-> (why, signature owner) of constructing class c"""
    if ix.is_enum(c):
        return None
    for k in ix.mro(c):
        if "__new__" in k.methods or any(kw.arg == "metaclass" and deco_name(kw.value) not in ("ABCMeta", "abc.ABCMeta", "RegistryMeta") for kw in k.node.keywords):
            return None
        if "__init__" in k.methods:
            f = k.methods["__init__"]
            if wrapped(f):
                return None
            return misfit(f.node.args, call, 1)
        decos = [d.split(".")[-1] for d in k.deconames]
        if any(d.endswith("dataclass") for d in decos) or any(deco_name(b).split(".")[-1] == "NamedTuple" for b in k.node.bases if not isinstance(b, ast.Subscript)):
            return record_misfit(ix, k, call)
        if [d for d in decos if d not in ("final",)]:
            return None
    if opaque_bases(ix, c):
        return None
    if call.args or call.keywords:
        return "the class takes no arguments"
    return None


MODULE_ATTRS = set(
    "training forward add_module apply bfloat16 buffers children cpu cuda double eval extra_repr float half load_state_dict modules named_buffers "
    "named_children named_modules named_parameters parameters register_backward_hook register_buffer register_forward_hook register_module get_parameter "
    "register_forward_pre_hook register_parameter requires_grad_ share_memory state_dict to train type zero_grad get_submodule get_buffer "
    "_modules _parameters _buffers _get_name dump_patches".split())
LIGHTNING_ATTRS = MODULE_ATTRS | set(
    "device dtype logger global_step current_epoch trainer log log_dict optimizers lr_schedulers example_input_array hparams on_gpu print "
    "save_hyperparameters manual_backward toggle_optimizer untoggle_optimizer automatic_optimization local_rank global_rank use_amp truncated_bptt_steps "
    "training_step training_step_end training_epoch_end validation_step validation_step_end validation_epoch_end test_step test_step_end "
    "test_epoch_end configure_optimizers optimizer_step optimizer_zero_grad backward all_gather freeze unfreeze load_from_checkpoint to_onnx "
    "to_torchscript prepare_data setup teardown train_dataloader val_dataloader test_dataloader on_train_start on_train_end on_train_epoch_start "
    "on_train_epoch_end on_validation_epoch_start on_validation_epoch_end on_test_epoch_end on_fit_start on_fit_end on_epoch_start on_epoch_end "
    "on_train_batch_start on_train_batch_end on_save_checkpoint on_load_checkpoint on_before_zero_grad on_after_backward transfer_batch_to_device "
    "get_progress_bar_dict tbptt_split_batch summarize on_pretrain_routine_start on_pretrain_routine_end configure_callbacks".split())
TUPLE_ATTRS = {"_replace", "_asdict", "_fields", "_make", "_field_defaults", "count", "index"}
EXTERNAL = {"nn.Module": MODULE_ATTRS, "torch.nn.Module": MODULE_ATTRS, "Module": MODULE_ATTRS, "pl.LightningModule": LIGHTNING_ATTRS,
            "LightningModule": LIGHTNING_ATTRS, "NamedTuple": TUPLE_ATTRS, "typing.NamedTuple": TUPLE_ATTRS}
PLAIN_META = {"RegistryMeta", "ABCMeta", "abc.ABCMeta"}
DYNAMIC = {"__getattr__", "__getattribute__"}
CLASS_DECOS = {"dataclass", "dataclasses.dataclass", "final", "unique", "enum.unique"}


def self_names(f):
    """first parameters of methods"""
    a = f.node.args.args
    return a[0].arg if a and not f.is_static else None


class Members:
    """which attributes the instances of a class may have; None = unknown"""

    def __init__(self, ix, classes):
        self.ix = ix
        self.own = {}
        self.subs = {}
        self.cache = {}
        for c in classes:
            for k in ix.mro(c)[1:]:
                self.subs.setdefault(k.qual, []).append(c)

    def declared(self, k):
        """attributes the body of class k gives its instances; None when it may give any"""
        if k.qual in self.own:
            return self.own[k.qual]
        s = set(k.methods) | set(k.attrs) | {f[0] for f in k.fields} | set(k.nested) | set(k.setters)
        dyn = bool(s & DYNAMIC)
        for st in k.node.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    s.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("register_buffer", "register_parameter", "add_module"):
                    if n.args and isinstance(n.args[0], ast.Constant):
                        s.add(n.args[0].value)
                    else:
                        dyn = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    dyn = True
                elif isinstance(n, ast.Attribute) and n.attr == "__dict__" and not isinstance(st, ast.Assign):
                    dyn = True
            if isinstance(st, (ast.For, ast.With, ast.If, ast.Try)):
                s |= bound([st])
        for d in k.deconames:
            if d not in CLASS_DECOS and not d.split(".")[-1].endswith("dataclass"):
                if not d.endswith(("fill_union", "register_observable", "observable")):
                    dyn = True
        self.own[k.qual] = None if dyn else s
        return self.own[k.qual]

    def of(self, c):
        if c.qual in self.cache:
            return self.cache[c.qual]
        out = set()
        for k in self.ix.mro(c):
            if any(kw.arg == "metaclass" and deco_name(kw.value) not in PLAIN_META for kw in k.node.keywords):
                out = None
                break
            d = self.declared(k)
            if d is None:
                out = None
                break
            out |= d
            if any(x.split(".")[-1] == "observable" for x in k.deconames):
                out |= {"add_observer", "add_observers", "notify_observers", "_observers", "_value_key", "_value_keys"}
        if out is not None:
            for b in opaque_bases(self.ix, c):
                if b not in EXTERNAL:
                    out = None
                    break
                out |= EXTERNAL[b]
            if out is not None and any(b.split(".")[-1] == "LightningModule" for b in self.ix.basenames(c)):
                out |= LIGHTNING_ATTRS
        self.cache[c.qual] = out
        return out

    def has(self, c, name):
        """True / False / None (unknown)"""
        if name.startswith("__") and name.endswith("__"):
            return True
        if self.ix.is_enum(c):
            return None
        o = self.of(c)
        if o is None:
            return None
        if name in o:
            return True
        for k in self.subs.get(c.qual, ()):
            o = self.of(k)
            if o is None:
                return None
            if name in o:
                return True
        return False


def flatten(test):
    """the variables (with attribute chains) a condition depends on"""
    out = set()
    for n in ast.walk(test):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
    return out - {"self", "len", "isinstance", "True", "False", "None"}


class Definite:
    """locals that may be read before they are assigned; loops are taken to run at least once"""

    def __init__(self, fn):
        self.fn = fn
        self.params = params(fn.args)
        self.locs = bound(fn.body) - self.params
        self.bad = []
        self.conds = []
        self.splits = {}  # local -> the conditions under which it is assigned
        self.deps = {}
        self.prepare(fn.body, [])
        self.block(fn.body, set(self.params))

    def prepare(self, body, tests):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.If):
                self.prepare(s.body, tests + [s.test])
                self.prepare(s.orelse, tests + [s.test])
                # an early exit makes everything after it conditional
                if any(isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for b in s.body + s.orelse for n in ast.walk(b)):
                    tests = tests + [s.test]
                continue
            for n in ast.walk(s) if not isinstance(s, (ast.For, ast.While, ast.With, ast.Try, ast.AsyncFor, ast.AsyncWith)) else [s]:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    v = getattr(s, "value", None)
                    if isinstance(s, ast.AugAssign) or v is not None and any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(v)):
                        continue  # an update needs the value already
                    self.splits.setdefault(n.id, []).append(list(tests))
                    if isinstance(s, ast.Assign):
                        self.deps.setdefault(n.id, set()).update(flatten(s.value))
            for f in ("body", "orelse", "finalbody"):
                if not isinstance(s, ast.If) and isinstance(getattr(s, f, None), list):
                    extra = [s.test] if isinstance(s, ast.While) else []
                    self.prepare(getattr(s, f), tests + extra)
            for h in getattr(s, "handlers", []):
                self.prepare(h.body, tests)

    def related(self, tests):
        out = set()
        for t in tests:
            out |= flatten(t)
        for _ in range(4):
            for n in list(out):
                out |= self.deps.get(n, set())
        return out

    def clear(self, e):
        """the read is not protected by conditions related to those of the assignments"""
        groups = self.splits.get(e[0].id, [])
        d = self.related(e[1])
        seen = []
        for g in groups:
            s = self.related(g)
            if s & d:
                return False
            seen.append((g, s))
        for i, (g, s) in enumerate(seen):
            for h, t in seen[:i]:
                if (s & t) and not (g and h and g[0] is h[0]):
                    return False
        return True

    def use(self, e, s):
        if e is None or isinstance(e, ast.Lambda):
            return
        if isinstance(e, COMP):
            inner = {c.id for g in e.generators for c in ast.walk(g.target) if isinstance(c, ast.Name)}
            self.use(e.generators[0].iter, s)
            hidden = inner - s
            for c in ast.iter_child_nodes(e):
                if c is not e.generators[0]:
                    self.use(c, s | hidden)
            for g in e.generators[:1]:
                for i in g.ifs:
                    self.use(i, s | hidden)
            return
        if isinstance(e, ast.comprehension):
            for c in [e.iter] + e.ifs:
                self.use(c, s)
            return
        if isinstance(e, ast.IfExp):
            self.use(e.test, s)
            self.conds.append(e.test)
            self.use(e.body, set(s))
            self.use(e.orelse, set(s))
            self.conds.pop()
            return
        if isinstance(e, ast.BoolOp):
            self.use(e.values[0], s)
            self.conds.append(e.values[0])
            for v in e.values[1:]:
                self.use(v, set(s))
            self.conds.pop()
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, s)
            s.add(e.target.id)
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in self.locs and e.id not in s:
            self.bad.append((e, list(self.conds)))
        for c in ast.iter_child_nodes(e):
            self.use(c, s)

    def tgt(self, t, s):
        if isinstance(t, ast.Name):
            s.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.tgt(x, s)
        elif isinstance(t, ast.Starred):
            self.tgt(t.value, s)
        else:
            self.use(t, s)

    def block(self, b, s):
        for st in b:
            s = self.stmt(st, s)
            if s is None:
                return None
        return s

    @staticmethod
    def meet(*ss):
        ss = [x for x in ss if x is not None]
        return set.intersection(*map(set, ss)) if ss else None

    def stmt(self, n, s):
        if isinstance(n, ast.Return):
            self.use(n.value, s)
            return None
        if isinstance(n, ast.Raise):
            self.use(n.exc, s)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            return None
        if isinstance(n, ast.Assign):
            self.use(n.value, s)
            for t in n.targets:
                self.tgt(t, s)
            return s
        if isinstance(n, ast.AugAssign):
            self.use(n.value, s)
            if isinstance(n.target, ast.Name):
                if n.target.id in self.locs and n.target.id not in s:
                    self.bad.append((n.target, list(self.conds)))
                s.add(n.target.id)
            else:
                self.use(n.target, s)
            return s
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.use(n.value, s)
                self.tgt(n.target, s)
            return s
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            s.add(n.name)
            return s
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                s.add(a.asname or a.name.split(".")[0])
            return s
        if isinstance(n, ast.If):
            self.use(n.test, s)
            fb = _fb_test(n.test)
            if isinstance(n.test, ast.Constant):
                fb = bool(n.test.value)
            if fb is not None:
                return self.block(n.body if fb else n.orelse, s)
            self.conds.append(n.test)
            for br in (n.body, n.orelse):
                if len(br) == 1 and isinstance(br[0], ast.If):
                    br[0]._chained = len(n.body) and len(n.orelse)
            a, b = self.block(n.body, set(s)), self.block(n.orelse, set(s))
            self.conds.pop()
            if getattr(n, "_chained", False):  # a chain of alternatives without a final case covers its cases
                if all(isinstance(x, ast.Pass) for x in n.orelse):
                    return a
                if all(isinstance(x, ast.Pass) for x in n.body):
                    return b
            if a is None or b is None:
                self.conds.append(n.test)  # what follows depends on this exit not being taken
            return self.meet(a, b)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            self.use(n.iter, s)
            b = set(s)
            self.tgt(n.target, b)
            d = len(self.conds)
            r = self.block(n.body, b)
            del self.conds[d:]
            out = (r if r is not None else set(b)) | (bound(n.body) & self.locs)  # a search loop finds what it looks for
            e = self.block(n.orelse, set(out)) if n.orelse else out
            return e if e is not None else out
        if isinstance(n, ast.While):
            self.use(n.test, s)
            d = len(self.conds)
            self.conds.append(n.test)
            r = self.block(n.body, set(s))
            del self.conds[d:]
            return (r if r is not None else s) | (bound(n.body) & self.locs)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.use(i.context_expr, s)
                if i.optional_vars is not None:
                    self.tgt(i.optional_vars, s)
            return self.block(n.body, s)
        if isinstance(n, ast.Try):
            b = self.block(n.body, set(s))
            outs = [self.block(n.orelse, set(b)) if b is not None else None]
            for h in n.handlers:
                hs = set(s)
                if h.name:
                    hs.add(h.name)
                outs.append(self.block(h.body, hs))
            r = self.meet(*outs)
            if n.finalbody:
                f = self.block(n.finalbody, set(r) if r is not None else set(s))
                if r is not None and f is not None:
                    r |= f
            return r
        if isinstance(n, ast.Assert):
            self.use(n.test, s)
            return None if isinstance(n.test, ast.Constant) and not n.test.value else s
        if isinstance(n, (ast.Delete, ast.Global, ast.Nonlocal, ast.Pass)):
            return s
        for c in ast.iter_child_nodes(n):
            self.use(c, s)
        return s


def parameters(ix, f, skip):
    """parameter names of a function, or of constructing a class, in order"""
    if isinstance(f, Class):
        for k in ix.mro(f):
            if "__init__" in k.methods:
                a, skip = k.methods["__init__"].node.args, 1
                break
            if k.fields:
                return [x[0] for x in ix.record_fields(k)]
        else:
            return []
    else:
        a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args][skip:] + [x.arg for x in a.kwonlyargs]


def named(e):
    n = e.id if isinstance(e, ast.Name) else e.attr.lstrip("_") if isinstance(e, ast.Attribute) else ""
    return n if len(n) > 2 else ""


def crossed(names, call):
    """a value that carries the name of one parameter is passed as another: -> (parameter, name) or None"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = dict(zip(names, call.args))
    given = dict(pos)
    given.update({k.arg: k.value for k in call.keywords})
    for p, e in given.items():
        q = named(e)
        if not q or q == p or q not in names or q in given and named(given[q]) == q:
            continue
        if q in given and named(given[q]) == p or p in pos and (q not in given or q in pos and given[q] is not e):
            return p, q
    return None


def crossed_store(fn):
    """a constructor keeps one argument under the name of another, which it does not keep itself: -> [(statement, attribute, argument)]"""
    ps = {x.arg for x in fn.args.args[1:] + fn.args.kwonlyargs}
    kept, odd = set(), []
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in ps:
            for t in s.targets:
                if isinstance(t, ast.Attribute):
                    n = t.attr.lstrip("_")
                    if n == s.value.id:
                        kept.add(n)
                    elif n in ps:
                        odd.append((s, n, s.value.id))
    return [(s, a, v) for s, a, v in odd if a not in kept]
