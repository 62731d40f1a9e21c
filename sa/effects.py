"""May-alias and in-place effect analysis over the syntax tree, interprocedural by inlining.

A value carries the origins (parameters of the analysed entry) it may share storage with, each at a level:
2 the object itself may be the origin's (or a view of it), 1 a fresh container whose elements may be.  A write through a
level-2 value is an effect on its origin.
"""
import ast

from . import driver as D
from .index import Class, Func, deco_name

VIEWS = {"view", "reshape", "squeeze", "unsqueeze", "transpose", "t", "permute", "expand", "expand_as", "detach", "float", "double", "long", "int",
         "bool", "half", "to", "type", "type_as", "contiguous", "cpu", "cuda", "flatten", "narrow", "select", "split", "chunk", "unbind", "numpy",
         "diagonal", "view_as", "reshape_as", "requires_grad_", "items", "values", "get", "swapaxes", "unfold", "pin_memory", "movedim",
         "ravel", "short", "byte", "detach_", "setdefault", "pop", "unflatten", "swapdims", "refine_names", "rename", "as_subclass", "astype_view"}
FUNC_VIEWS = {"squeeze", "unsqueeze", "reshape", "transpose", "flatten", "chunk", "split", "as_tensor", "from_numpy", "asarray", "ravel", "permute",
              "unbind", "narrow", "cast", "iter", "next", "reversed", "getattr", "atleast_1d", "atleast_2d", "broadcast_to", "expand_dims",
              "swapaxes", "movedim", "Parameter", "Variable", "identity"}
CONTAINERS = {"zip", "enumerate", "list", "tuple", "dict", "set", "OrderedDict", "sorted", "filter", "map", "deque", "defaultdict", "chain",
              "replace", "copy"}
PLAIN = {"shape", "ndim", "device", "dtype", "is_cuda", "requires_grad", "__class__", "__name__", "__dict__"}
LISTMUT = {"append", "extend", "insert", "remove", "clear", "update", "sort", "reverse", "popitem", "appendleft", "pop", "setdefault", "add", "discard", "fill",
           "resize", "put", "partition", "itemset", "copyto"}
NUMBERS = {"int", "float", "bool", "str"}


class V:
    __slots__ = ("o", "cls", "num")

    def __init__(self, o=None, cls=None, num=False):
        self.o = o or {}
        self.cls = cls
        self.num = num

    def at(self, cap):
        return V({k: min(v, cap) for k, v in self.o.items()}, self.cls if cap == 2 else None)

    def inner(self):
        """an element of it"""
        return V({k: 2 for k in self.o})

    def contained(self):
        return V({k: 1 for k in self.o})

    def key(self):
        return (tuple(sorted(self.o.items())), self.cls.qual if self.cls else None, self.num)


NOTHING = V()
FRESH_ARRAYS = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "arange", "tensor", "array", "eye", "linspace", "rand", "randn"}


def fresh_array(e):
    return (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name)
            and e.func.value.id in ("np", "numpy", "torch") and e.func.attr in FRESH_ARRAYS)



def join(*vs):
    o = {}
    for v in vs:
        for k, x in v.o.items():
            o[k] = max(o.get(k, 0), x)
    cs = {v.cls for v in vs if v.o}
    return V(o, cs.pop() if len(cs) == 1 else None, all(v.num for v in vs) if vs else False)


class Effect:
    def __init__(self, origin, loc, text, func):
        self.origin, self.loc, self.text, self.fn, self.func = origin, loc, text, func, func.qual

    def key(self):
        return (self.origin, self.loc)


class Analysis:
    """effects of one entry point"""

    def __init__(self, ix, selfattrs=None, globals=False):
        self.ix = ix
        self.globals = globals  # follow module-level and class-level objects too
        self.memo = {}
        self.effects = {}
        self.visited = set()
        self.selfattrs = selfattrs or {}  # class qual -> {attr: V}
        self.stack = []
        self.selfstores = {}

    def run(self, fn, args, cls=None, selfv=None):
        """args: {param: V}"""
        k = (fn.qual if isinstance(fn, Func) else id(fn), cls.qual if cls else None, tuple(sorted((n, v.key()) for n, v in args.items())),
             selfv.key() if selfv else None)
        if k in self.memo:
            return self.memo[k]
        if len(self.stack) > 12 or k in self.stack:
            return NOTHING
        self.memo[k] = NOTHING
        self.stack.append(k)
        self.visited.add(fn.qual)
        w = Walk(self, fn, cls, selfv)
        w.env.update(args)
        w.body(fn.node.body)
        self.stack.pop()
        self.memo[k] = w.ret
        return w.ret

    def note(self, v, node, fn, what):
        for k, lv in v.o.items():
            if lv == 2:
                e = Effect(k, fn.loc(node), what, fn)
                self.effects.setdefault(e.key(), e)


class Walk:
    def __init__(self, an, fn, cls, selfv):
        self.an, self.ix, self.fn, self.cls, self.selfv = an, an.ix, fn, cls, selfv
        self.env = {}
        self.ret = NOTHING
        self.local = {}
        self.arrays = set()  # names bound to a fresh array: storing into it copies
        args = fn.node.args.args
        self.selfname = args[0].arg if args and fn.cls is not None and not fn.is_static else None
        if self.selfname:
            args = args[1:]
        for a in args + fn.node.args.kwonlyargs:
            n = a.annotation
            if isinstance(n, ast.Name) and n.id in NUMBERS:
                self.env[a.arg] = V(num=True)

    # statements
    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.local[s.name] = s
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
                if isinstance(t, ast.Name) and fresh_array(s.value):
                    self.arrays.add(t.id)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            x = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                v = self.env.get(s.target.id, NOTHING)
                if not v.num and not v.cls_number():
                    self.an.note(v, s, self.fn, "`%s` updates it in place" % ast.unparse(s)[:90])
                if isinstance(s.op, ast.Add):
                    self.env[s.target.id] = join(v, x.contained())
            else:
                self.write(s.target, s)
                if isinstance(s.target, ast.Attribute) and not isinstance(s.target.value, ast.Name):
                    pass
                if isinstance(s.target, ast.Attribute) and self.is_self(s.target.value):
                    v = self.ev(s.target)
                    if not v.num:
                        self.an.note(v, s, self.fn, "`%s` updates it in place" % ast.unparse(s)[:90])
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                self.assign(s.target, it.inner(), s)
                self.body(s.body)
            self.body(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test)
                self.body(s.body)
            self.body(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            a = dict(self.env)
            self.body(s.body)
            b = self.env
            self.env = a
            self.body(s.orelse)
            self.env = {k: join(self.env.get(k, NOTHING), b.get(k, NOTHING)) if k in self.env and k in b else self.env.get(k, b.get(k))
                        for k in set(self.env) | set(b)}
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s)
            self.body(s.body)
        elif isinstance(s, ast.Try):
            self.body(s.body)
            for h in s.handlers:
                self.body(h.body)
            self.body(s.orelse)
            self.body(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = join(self.ret, self.ev(s.value))
        elif isinstance(s, ast.Expr):
            self.ev(s.value, stmt=True)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.write(t, s)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)

    def is_self(self, e):
        return isinstance(e, ast.Name) and e.id == self.selfname and self.selfv is None

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            self.arrays.discard(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, v.inner(), s)
        elif isinstance(t, ast.Attribute) and self.is_self(t.value):
            if v.o:
                d = self.an.selfstores
                d[t.attr] = join(d[t.attr], v) if t.attr in d else v
        else:
            self.write(t, s)
            # a fresh container now holds it
            b = t.value
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in self.env and b.id not in self.arrays and not self.is_self(b):
                self.env[b.id] = join(self.env[b.id], v.contained())

    def write(self, t, s):
        """a store into an attribute or an element"""
        b = t.value
        if self.is_self(b) and isinstance(t, ast.Attribute):
            return
        self.an.note(self.ev(b), s, self.fn, "`%s` writes into it" % ast.unparse(s)[:90])
        if isinstance(t, ast.Subscript):
            self.ev(t.slice)

    # expressions
    def ev(self, e, stmt=False):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return NOTHING
        return m(e, stmt) if m.__func__ is Walk.e_Call else m(e)

    def e_Name(self, e):
        if e.id == self.selfname and self.selfv is not None:
            return self.selfv
        if e.id in self.env or e.id == self.selfname:
            return self.env.get(e.id, NOTHING)
        return self.shared(self.ix.resolve_in(self.fn.module, e.id), e.id)

    def shared(self, r, name):
        """a module-level object, when the analysis follows those"""
        if self.an.globals and isinstance(r, tuple) and r[0] == "assign" and mutable(r[1]) and not cache(r[1]):
            return V({"%s.%s" % (r[2].name, name): 2})
        return NOTHING

    def class_value(self, c, attr):
        """an object kept on the class itself, shared by its instances"""
        if self.an.globals and c is not None:
            for k in self.ix.mro(c):
                x = k.attrs.get(attr)
                if x is not None:
                    if mutable(x):
                        return V({"%s.%s" % (k.qual, attr): 2})
                    return NOTHING
        return NOTHING

    def e_Constant(self, e):
        return V(num=isinstance(e.value, (int, float, str)))

    def e_Attribute(self, e):
        if self.is_self(e.value):
            if e.attr in self.an.selfstores:
                return self.an.selfstores[e.attr]
            f = self.ix.find_method(self.cls, e.attr) if self.cls else None
            if f is not None and f.is_property:
                return self.an.run(f, {}, self.cls)
            if self.cls is not None:
                for c in self.ix.mro(self.cls):
                    v = self.an.selfattrs.get(c.qual, {}).get(e.attr)
                    if v is not None:
                        return v
            return self.class_value(self.cls, e.attr)
        if self.an.globals:
            b = self.mod(e.value)
            if isinstance(b, tuple) and b[0] == "mod":
                return self.shared(self.mod(e), e.attr)
            if isinstance(b, Class):
                return self.class_value(b, e.attr)
        v = self.ev(e.value)
        if e.attr in PLAIN or not v.o:
            return NOTHING
        if v.cls is not None:
            f = self.ix.find_method(v.cls, e.attr)
            if f is not None:
                return self.an.run(f, {}, v.cls, v) if f.is_property else NOTHING
            k = field_class(self.ix, v.cls, e.attr)
            if k == "number":
                return V({a: 2 for a in v.o}, num=True)
            return V({a: 2 for a in v.o}, k)
        return v.inner()

    def e_Subscript(self, e):
        v = self.ev(e.value)
        self.ev(e.slice)
        if copying(e.slice):
            return V({k: 1 for k in v.o if v.o[k] == 2} if v.cls is None else v.inner().o)
        return v.inner()

    def e_IfExp(self, e):
        self.ev(e.test)
        return join(self.ev(e.body), self.ev(e.orelse))

    def e_BoolOp(self, e):
        return join(*[self.ev(x) for x in e.values])

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.Add, ast.BitOr)) and (isinstance(e.left, (ast.List, ast.Tuple)) or isinstance(e.right, (ast.List, ast.Tuple))):
            return join(a, b).contained()
        return V(num=a.num and b.num)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Tuple(self, e):
        return join(*[self.ev(x) for x in e.elts]).contained()

    e_List = e_Set = e_Tuple

    def e_Starred(self, e):
        return self.ev(e.value).inner()

    def e_Dict(self, e):
        for k in e.keys:
            if k is not None:
                self.ev(k)
        return join(*[self.ev(x) for x in e.values]).contained()

    def _comp(self, e, leafs):
        saved = dict(self.env)
        for g in e.generators:
            self.assign(g.target, self.ev(g.iter).inner(), e)
            for c in g.ifs:
                self.ev(c)
        v = join(*[self.ev(x) for x in leafs]).contained()
        self.env = saved
        return v

    def e_ListComp(self, e):
        return self._comp(e, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self._comp(e, [e.value])  # keys cannot change

    def e_Yield(self, e):
        if e.value is not None:
            self.ev(e.value)
        return NOTHING

    e_YieldFrom = e_Yield

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Lambda(self, e):
        return NOTHING

    def e_JoinedStr(self, e):
        return NOTHING

    def e_Call(self, e, stmt=False):
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        every = args + list(kws.values())
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        for n in ("out",):
            if n in kws:
                self.an.note(kws[n], e, self.fn, "`%s` writes its result into it" % ast.unparse(e)[:90])
        if isinstance(f, ast.Name) and f.id in self.local:
            return self.nested(self.local[f.id], e, args, kws)
        tgt = self.resolve(f)
        if isinstance(tgt, tuple) and tgt[0] == "method":
            return self.call(tgt[1], e, args, kws, tgt[2], tgt[3])
        if isinstance(tgt, Func):
            return self.call(tgt, e, args, kws, tgt.cls, None)
        if isinstance(tgt, Class):
            v = join(*every).contained() if every else NOTHING
            if v.o:
                v = self.kept(tgt, e, args, kws, v)
            return V(v.o, tgt)
        if isinstance(tgt, tuple) and tgt[0] == "lib":
            return self.library(name, e, args, kws)
        if isinstance(f, ast.Attribute):  # a method of a value
            b = self.ev(f.value)
            if b.o:
                if name.endswith("_") and not name.endswith("__") and name not in ("requires_grad_", "share_memory_"):
                    self.an.note(b, e, self.fn, "`%s` updates it in place" % ast.unparse(e)[:90])
                    return b
                if name in LISTMUT and stmt or name in ("popitem",):
                    self.an.note(b, e, self.fn, "`%s` changes it" % ast.unparse(e)[:90])
                if stmt and isinstance(f.value, ast.Name) and f.value.id in self.env and name in LISTMUT:
                    self.env[f.value.id] = join(b, *[x.contained() for x in every])
                if name in VIEWS:
                    return V(b.o, None) if name not in ("items", "values") else b.inner().contained()
                if name in ("copy", "_replace", "_asdict", "keys", "_make"):
                    return join(b.contained(), *[x.contained() for x in every])
                return NOTHING
            if stmt and isinstance(f.value, ast.Name) and name in LISTMUT and every:
                self.env[f.value.id] = join(*[x.contained() for x in every])
            if name.endswith("_") and not name.endswith("__"):
                return NOTHING
            if self.mod(f.value) is not None:
                return self.library(name, e, args, kws)
            return NOTHING
        if isinstance(f, ast.Name):
            return self.library(name, e, args, kws)
        self.ev(f)
        return NOTHING

    def kept(self, c, e, args, kws, v):
        """what a new object holds on to"""
        init = self.ix.find_method(c, "__init__")
        if init is None or init.cls.fields or len(self.an.stack) > 4:
            return v
        sub = Analysis(self.ix)
        sub.stack = list(self.an.stack)
        w = Walk(sub, self.fn, self.cls, self.selfv)
        w.call(init, e, args, kws, c, None)
        return join(*sub.selfstores.values()).contained() if sub.selfstores else NOTHING

    def library(self, name, e, args, kws):
        every = args + list(kws.values())
        if name.endswith("_") and not name.endswith("__") and not name.startswith("clip_grad") and args:
            self.an.note(args[0], e, self.fn, "`%s` updates it in place" % ast.unparse(e)[:90])
            return args[0]
        if name in ("shuffle", "copyto", "put", "fill_diagonal", "put_along_axis", "heapify") and args:
            self.an.note(args[0], e, self.fn, "`%s` changes it" % ast.unparse(e)[:90])
        if name == "setattr" and args:
            self.an.note(args[0], e, self.fn, "`%s` writes into it" % ast.unparse(e)[:90])
        if any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords) and args:
            self.an.note(args[0], e, self.fn, "`%s` updates it in place" % ast.unparse(e)[:90])
        if name == "cast" and len(args) == 2:
            return args[1]
        if name in FUNC_VIEWS:
            return args[0] if args else NOTHING
        if name in CONTAINERS:
            return join(*[v.inner() for v in every]).contained() if every else NOTHING
        return NOTHING

    def nested(self, node, e, args, kws):
        """a function defined in this one: its body runs in this environment"""
        if len(self.an.stack) > 12 or getattr(node, "_busy", False):
            return NOTHING
        saved = dict(self.env)
        ret, self.ret = self.ret, NOTHING
        self.bind_env(node.args, args, kws, self.env)
        node._busy = True
        self.body(node.body)
        node._busy = False
        v, self.ret = self.ret, ret
        self.env = saved
        return v

    def bind_env(self, a, args, kws, env):
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        for n in names + [x.arg for x in a.kwonlyargs]:
            out[n] = NOTHING
        for n, v in zip(names, args):
            out[n] = v
        for n, v in kws.items():
            if n in out:
                out[n] = v
            elif a.kwarg and n:
                out[a.kwarg.arg] = join(out.get(a.kwarg.arg, NOTHING), v.contained())
        if a.vararg and len(args) > len(names):
            out[a.vararg.arg] = join(*args[len(names):]).contained()
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if isinstance(x.annotation, ast.Name) and x.annotation.id in NUMBERS:
                out[x.arg] = V(num=True)
        env.update(out)
        return out

    def call(self, fn, e, args, kws, cls, selfv):
        a = fn.node.args
        if any(isinstance(x, ast.Starred) for x in e.args):
            st = join(*args)
            args = args + [st.inner()] * 12
        env = {}
        if fn.cls is not None and not fn.is_static:
            sub = ast.arguments(posonlyargs=[], args=a.args[1:], vararg=a.vararg, kwonlyargs=a.kwonlyargs, kw_defaults=[], kwarg=a.kwarg, defaults=[])
        else:
            sub = a
        self.bind_env(sub, args, kws, env)
        for x in sub.args:
            v = env.get(x.arg)
            if v is not None and v.o and v.cls is None and x.annotation is not None:
                env[x.arg] = V(v.o, D._ann_class(self.ix, fn.module, x.annotation), v.num)
        return self.an.run(fn, env, cls, selfv)

    def mod(self, e):
        """a module or library object denoted by the expression"""
        if isinstance(e, ast.Name) and e.id not in self.env and e.id != self.selfname:
            r = self.ix.resolve_in(self.fn.module, e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.mod(e.value)
            if isinstance(b, tuple) and b[0] in ("mod", "ext"):
                return self.ix.resolve_dotted(b[1], e.attr)
            if isinstance(b, Class):
                return self.ix.find_method(b, e.attr) or b.nested.get(e.attr)
        return None

    def resolve(self, f):
        if isinstance(f, ast.Name):
            r = self.mod(f)
            return r if isinstance(r, (Func, Class)) else ("lib",) if r is not None else None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                m = self.ix.find_method(self.cls, f.attr, after=self.fn.cls) if self.cls else None
                return ("method", m, self.cls, self.selfv) if m is not None else ("lib",)
            if self.is_self(f.value):
                m = self.ix.find_method(self.cls, f.attr) if self.cls else None
                return ("method", m, self.cls, None) if m is not None else None
            r = self.mod(f)
            if isinstance(r, (Func, Class)):
                return r
            if isinstance(r, tuple):
                return ("lib",)
            b = self.ev(f.value)
            if b.cls is not None:
                m = self.ix.find_method(b.cls, f.attr)
                if m is not None:
                    return ("method", m, b.cls, b)
        return None


def mutable(e):
    """an expression that makes an object which can be changed in place"""
    if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = deco_name(e.func).split(".")[-1]
        return n in FRESH_ARRAYS or n in ("dict", "list", "set", "OrderedDict", "defaultdict", "deque", "Counter")
    return False


def cache(e):
    """a dictionary that starts out empty, to be filled in"""
    return isinstance(e, ast.Dict) and not e.keys


def cls_number(self):
    return self.cls == "number"


V.cls_number = cls_number


def copying(ix):
    """an index that copies: a mask or a list of positions"""
    if isinstance(ix, ast.Tuple):
        return any(copying(x) for x in ix.elts)
    return isinstance(ix, (ast.Compare, ast.List, ast.Call, ast.BinOp)) and not isinstance(ix, ast.BinOp)


def field_class(ix, cls, name):
    for c in ix.mro(cls):
        for n, ann, _ in c.fields:
            if n == name:
                if isinstance(ann, ast.Name) and ann.id in NUMBERS:
                    return "number"
                if isinstance(ann, ast.Subscript) and getattr(ann.value, "id", "") == "Optional" and isinstance(ann.slice, ast.Name) and ann.slice.id in NUMBERS:
                    return "number"
                return D._ann_class(ix, c.module, ann)
    return None
