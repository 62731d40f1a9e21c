"""Builds gated value graphs for functions of the repository (abstract evaluation, no execution)."""
import ast
import itertools

from . import ops as O
from . import terms as T
from .index import AnalysisBroken, Class, Func, Index, Module, deco_name
from .ops import attr, canon, close, concat, item, length, op, setitem
from .terms import (FALSE, NONE, ONE, TRUE, ZERO, Term, add, and_, cmp, const, div, is_bool, is_num, is_str, ite, mk,
                    mul, neg, not_, or_, power, sub, sym, truthy, unk)

BINOP = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.FloorDiv: "floordiv",
         ast.Mod: "mod", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
         ast.LShift: "lshift", ast.RShift: "rshift"}
CMPOP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
         ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

EPOCH = ("attr", sym("world"), "epoch")  # ghost state: the last call that changed the outside world
MUTABLE = {"attr", "item", "sym", "fresh", "setitem", "updated", "concat", "list", "dict", "map", "fmap", "dictmap", "ite", "call"}
IMPURE = {"rand", "randn", "normal", "sample", "multinomial", "choice", "randint", "uniform", "permutation", "shuffle",
          "next", "rand_like", "randn_like", "randperm", "random", "standard_normal", "time", "rsample", "sample_n",
          "popleft", "act", "step", "reset", "get", "put", "beta", "gumbel", "exponential", "random_sample", "choices",
          "normal_", "uniform_", "dirichlet", "poisson", "run", "recv"} - {"get"}

LOGGISH = {"info", "warning", "warn", "debug", "error", "exception"}

MUT = {"append", "extend", "insert", "pop", "clear", "update", "remove", "add", "sort", "setdefault", "discard",
       "popleft", "appendleft", "reverse"}

REFKINDS = {"list", "dict", "set", "map", "fmap", "flat", "dictmap", "concat"}


class Event:
    __slots__ = ("kind", "val", "gate", "node", "func", "nograd")

    def __init__(self, kind, val, gate, node, func, nograd=0):
        self.kind, self.val, self.gate, self.node, self.func, self.nograd = kind, val, gate, node, func, nograd

    def with_(self, val, gate):
        return Event(self.kind, val, gate, self.node, self.func, self.nograd)


class State:
    __slots__ = ("frames", "heap", "path", "facts", "events", "nograd", "counts")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.path = ()
        self.facts = {}
        self.events = []
        self.nograd = 0
        self.counts = {}

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.path = self.path
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.nograd = self.nograd
        s.counts = dict(self.counts)
        return s


UNDEF = mk("undef")


class Ctx:
    """static context of the code being evaluated"""
    __slots__ = ("func", "module", "cls", "self", "fid", "defcls", "depth")

    def __init__(self, func, module, cls, selft, fid, defcls, depth):
        self.func, self.module, self.cls, self.self, self.fid, self.defcls, self.depth = (
            func, module, cls, selft, fid, defcls, depth)


class Done:
    __slots__ = ("kind", "cond", "st", "val")

    def __init__(self, kind, cond, st, val=None):
        self.kind, self.cond, self.st, self.val = kind, cond, st, val


def tailname(t):
    """last component of the name a callee goes by"""
    return t.args[1] if t.op == "attr" else t.args[0] if t.op == "sym" else t.args[0].split(".")[-1] if t.op == "func" else None


class Interp:
    MAXDEPTH = 14

    def __init__(self, index, opaque=(), inline_new=(), noinline_mods=()):
        self.ix = index
        self.opaque = set(opaque)
        self.inline_new = set(inline_new)
        self.noinline_mods = tuple(noinline_mods)
        self.nref = itertools.count(1)
        self.nframe = itertools.count(1)
        self.closures = {}
        self.objcls = {}  # object term -> Class (self, inlined instances)
        self.watch = ()  # methods whose calls are effects even where their result is used
        self.boolsyms = set()  # inputs declared to be truth values
        self.last_frame = {}  # variables of the last inlined call of a function, as it left them
        self.dictsyms = set()  # inputs declared to be dictionaries
        self.modes = None  # networks whose training flag is tracked: {name of the callee: None (itself) or path from self}
        self.volatile = ()  # attributes whose value changes with calls of self.mutators
        self.mutators = ()
        self.specdef = None  # class whose method the reference definition stands for (super() inside it)
        self.evaluated = {}  # qual -> Func, for coverage evidence
        self.callsites = 0
        self.expanding = None
        self.tries = {}  # try statement -> ordinal in evaluation order
        self.unknowns = []
        self.selfinit = {}
        self.ctorsym = sym("ctor")
        O.ENUM_VALUE = self.enum_value
        self.stack = []
        self._modcache = {}

    # ------------------------------------------------------------ utilities
    def ref(self, st, content):
        r = mk("ref", next(self.nref))
        st.heap[r] = content
        return r

    def deep(self, st, t):
        """dereference mutable objects into their current content"""
        if not isinstance(t, Term):
            return t
        if t.op == "ref":
            c = st.heap.get(t)
            if self.expanding is not None and c is not None and c.op == "new" and t in self.objcls:
                return self.contents(st, t, c)
            return self.deep(st, c) if c is not None else t
        if not _has_ref(t):
            return t
        m = {}
        for r in T.subterms(t):
            if r.op == "ref" and r in st.heap:
                m[r] = self.deep(st, r)
        return T.subst(t, m)

    def contents(self, st, obj, c):
        """object built during the evaluation -> its class and its attribute values"""
        if obj in self.expanding:
            return c
        self.expanding.add(obj)
        try:
            vals = {k[2]: self.deep(st, v) for k, v in st.heap.items() if isinstance(k, tuple) and k[0] == "attr" and k[1] is obj}
        finally:
            self.expanding.discard(obj)
        return mk("obj", c.args[0], tuple(sorted(vals.items())))

    def expanded(self, st, t):
        """deep, with the objects built during the evaluation replaced by their attribute values"""
        self.expanding = set()
        try:
            return self.deep(st, t)
        finally:
            self.expanding = None

    def esc(self, ctx, st, t):
        """value as it appears inside a term: dereferenced, closures turned into lambdas"""
        t = self.deep(st, t)
        if t.op in ("closure",):
            return self.closure_lam(ctx, st, t)
        if t.op in ("dict", "tuple", "list") and t.size < 400:
            sub_ = {x: self.closure_lam(ctx, st, x) for x in T.subterms(t) if x.op == "closure"}
            if sub_:
                t = T.subst(t, sub_)
        return t

    def func_lam(self, ctx, st, t):
        """a function of the repository handed to a library: what it computes"""
        fn = self.ix.get(t.args[0])
        if not isinstance(fn, Func) or len(fn.node.body) > 4 or fn.node.args.vararg or fn.node.args.kwarg:
            return t
        fr = [T.fresh("l") for _ in fn.node.args.args]
        s2 = st.fork()
        try:
            v = self.inline(fn, list(fr), {}, s2, caller=ctx)
        except RecursionError:
            return t
        return close("lam", [const(len(fr)), self.deep(s2, v)], fr)

    def closure_lam(self, ctx, st, t):
        node, cctx = self.closures[t.args[0]]
        args = node.args
        n = len(args.args)
        fr = [T.fresh("l") for _ in range(n)]
        s2 = st.fork()
        try:
            v = self.call_closure(t, list(fr), {}, s2)
        except RecursionError:
            return unk("lambda")
        v = self.deep(s2, v)
        return close("lam", [const(n), v], fr)

    def gate(self, st):
        return and_(*st.path)

    def event(self, ctx, st, kind, val, node):
        if isinstance(val, Term):
            val = self.deep(st, val)
        st.events.append(Event(kind, val, self.gate(st), node, ctx.func, st.nograd))

    def assume(self, st, c, v=True):
        """record that condition c holds (v) on this path"""
        def rec(c, v):
            if c.op == "not":
                rec(c.args[0], not v)
            elif c.op == "and" and v:
                for x in c.args:
                    rec(x, True)
            elif c.op == "or" and not v:
                for x in c.args:
                    rec(x, False)
            else:
                st.facts[c] = v
        rec(c, v)

    def simp(self, st, c):
        if c.op == "const" or not st.facts:
            return c
        if c in st.facts:
            return const(st.facts[c])
        if c.op == "not":
            return not_(self.simp(st, c.args[0]))
        if c.op == "and":
            return and_(*[self.simp(st, x) for x in c.args])
        if c.op == "or":
            return or_(*[self.simp(st, x) for x in c.args])
        if c.op == "ite":
            return ite(self.simp(st, c.args[0]), self.simp(st, c.args[1]), self.simp(st, c.args[2]))
        return c

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b, base):
        """join of two live states under condition c"""
        out = State()
        out.nograd = base.nograd
        out.path = base.path
        ea, eb = a.path[len(base.path):], b.path[len(base.path):]
        pa, pb = and_(*ea), and_(*eb)
        # the branch condition itself is the first extra path entry
        extra = ite(c, _drop(pa, c, True), _drop(pb, c, False))
        if extra is not TRUE:
            out.path = base.path + (extra,)
        out.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        out.events = base.events + a.events[len(base.events):] + b.events[len(base.events):]
        for fid in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                out.frames[fid] = dict(fa or fb)
                continue
            o = {}
            for k in set(fa) | set(fb):
                va, vb = fa.get(k, UNDEF), fb.get(k, UNDEF)
                if va is vb:
                    o[k] = va
                elif va is UNDEF:
                    o[k] = vb  # use of a possibly unbound name: take the bound side
                elif vb is UNDEF:
                    o[k] = va
                else:
                    o[k] = self.mergeval(c, va, vb, a, b)
            out.frames[fid] = o
        for k in set(a.heap) | set(b.heap):
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is vb:
                out.heap[k] = va
            elif va is None or vb is None:
                if isinstance(k, Term) and k.op == "ref":
                    out.heap[k] = va if va is not None else vb
                else:
                    init = self.heap_initial(k)
                    out.heap[k] = self.mergeval(c, va if va is not None else init, vb if vb is not None else init, a, b)
            else:
                out.heap[k] = self.mergeval(c, va, vb, a, b)
        for k in set(a.counts) | set(b.counts):
            out.counts[k] = max(a.counts.get(k, 0), b.counts.get(k, 0))
        return out

    def mergeval(self, c, va, vb, a, b):
        if va is vb:
            return va
        if (_has_ref(va) or _has_ref(vb)) and (va.op == "ref" or vb.op == "ref"):
            va, vb = self.deep(a, va), self.deep(b, vb)
        return ite(c, va, vb)

    def heap_initial(self, k):
        if isinstance(k, tuple) and k[0] == "attr":
            return mk("attr", k[1], k[2])
        if isinstance(k, tuple) and k[0] == "content":
            return k[1]
        return UNDEF

    # ------------------------------------------------------------ blocks
    def block(self, stmts, ctx, st):
        """-> (live State or None, [Done])"""
        done = []
        live = st
        for s in stmts:
            if live is None:
                break
            live, d = self.stmt(s, ctx, live)
            done.extend(d)
        return live, done

    def stmt(self, s, ctx, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknowns.append((ctx.func, s))
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.frames[ctx.fid][n.id] = unk("stmt:" + type(s).__name__, sym(n.id))
            return st, []
        return m(s, ctx, st)

    def s_Pass(self, s, ctx, st):
        return st, []

    s_Global = s_Pass

    def s_Nonlocal(self, s, ctx, st):
        # copied in here, copied out when the call ends
        for nm in s.names:
            st.frames[ctx.fid][nm] = self.lookup(nm, ctx, st)
        return st, []

    def s_Import(self, s, ctx, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            st.frames[ctx.fid][nm] = mk("mod", a.name if a.asname else nm)
        return st, []

    def s_ImportFrom(self, s, ctx, st):
        for a in s.names:
            r = self.ix.resolve_dotted(s.module or "", a.name)
            st.frames[ctx.fid][a.asname or a.name] = self.from_resolved(r, ctx, a.name)
        return st, []

    def s_Expr(self, s, ctx, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return st, []
        if isinstance(v, ast.Call):
            self.eval_call(v, ctx, st, stmt=True)
        else:
            self.ev(v, ctx, st)
        return st, []

    def s_Return(self, s, ctx, st):
        v = self.ev(s.value, ctx, st) if s.value is not None else NONE
        return None, [Done("ret", self.gate(st), st, v)]

    def s_Raise(self, s, ctx, st):
        if s.exc is not None:
            name = deco_name(s.exc)
        else:
            name = "reraise"
        st.events.append(Event("raise", const(name), self.gate(st), s, ctx.func, st.nograd))
        return None, [Done("raise", self.gate(st), st, const(name))]

    def s_Assert(self, s, ctx, st):
        c = self.simp(st, self.cond(s.test, ctx, st))
        if c is TRUE:
            return st, []
        st.events.append(Event("raise", const("AssertionError"), and_(self.gate(st), not_(c)), s, ctx.func, st.nograd))
        self.assume(st, c, True)
        if c is FALSE:
            return None, [Done("raise", self.gate(st), st, const("AssertionError"))]
        return st, []

    def s_Delete(self, s, ctx, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[ctx.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev_loc(t.value, ctx, st)
                key = self.ev_key(t.slice, ctx, st)
                cur = self.content(base, st)
                self.write_content(t.value, base, O.delitem(self.deep(st, cur) if cur.op == "ref" else cur, key), ctx, st)
        return st, []

    def s_Break(self, s, ctx, st):
        return None, [Done("brk", self.gate(st), st)]

    def s_Continue(self, s, ctx, st):
        return None, [Done("cont", self.gate(st), st)]

    def s_FunctionDef(self, s, ctx, st):
        st.frames[ctx.fid][s.name] = self.mkclosure(s, ctx)
        return st, []

    def s_ClassDef(self, s, ctx, st):
        st.frames[ctx.fid][s.name] = unk("localclass", const(s.name))
        return st, []

    def s_Assign(self, s, ctx, st):
        v = self.ev(s.value, ctx, st)
        for t in s.targets:
            self.assign(t, v, ctx, st)
        return st, []

    def s_AnnAssign(self, s, ctx, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, ctx, st), ctx, st)
        return st, []

    def s_AugAssign(self, s, ctx, st):
        t = s.target
        load = _as_load(t)
        old = self.ev(load, ctx, st)
        v = self.ev(s.value, ctx, st)
        o = BINOP[type(s.op)]
        if isinstance(t, ast.Name) and old.op in ("attr", "item", "sym") and o in ("mul", "add", "sub", "div", "and", "or"):
            # in-place update of an object that is reachable from elsewhere (if it is a tensor)
            self.event(ctx, st, "inplace", mk("tuple", old, const(o)), s)
        if old.op == "ref" and o == "add":
            st.heap[old] = concat(st.heap[old], self.deep(st, v))
            return st, []
        if old.op == "ref" and o == "or":
            st.heap[old] = self.dict_update(st.heap[old], self.deep(st, v))
            return st, []
        self.assign(t, self.binop(o, old, v, st), ctx, st)
        return st, []

    def s_If(self, s, ctx, st):
        c = self.simp(st, self.cond(s.test, ctx, st))
        if c is TRUE:
            return self.block(s.body, ctx, st)
        if c is FALSE:
            return self.block(s.orelse, ctx, st)
        a, b = st.fork(), st.fork()
        a.path = a.path + (c,)
        self.assume(a, c, True)
        b.path = b.path + (not_(c),)
        self.assume(b, c, False)
        la, da = self.block(s.body, ctx, a)
        lb, db = self.block(s.orelse, ctx, b)
        return self.join(c, la, da, lb, db, st)

    def join(self, c, la, da, lb, db, st):
        done = da + db
        if la is not None and lb is not None:
            return self.merge(c, la, lb, st), done
        if la is None and lb is None:
            return None, done
        live = la if la is not None else lb
        dead = db if la is not None else da
        # keep the events of the dead branch
        new = []
        seen = set(id(e) for e in live.events)
        for d in dead:
            for e in d.st.events[len(st.events):]:
                if id(e) not in seen:
                    seen.add(id(e))
                    new.append(e)
        n = len(st.events)
        if la is None:
            live.events = st.events + new + live.events[n:]
        else:
            live.events = live.events + new
        return live, done

    def s_With(self, s, ctx, st):
        ng = 0
        exits = []
        for w in s.items:
            nm = deco_name(w.context_expr)
            if nm.endswith("no_grad") or nm.endswith("inference_mode"):
                ng += 1
                continue
            if nm.endswith("enable_grad"):
                ng = -st.nograd
                continue
            v = self.ev(w.context_expr, ctx, st)
            self.event(ctx, st, "enter", v, s)
            exits.append(v)
            if w.optional_vars is not None:
                self.assign(w.optional_vars, mk("meth", "__enter__", (self.deep(st, v),), ()), ctx, st)
        st.nograd += ng
        live, done = self.block(s.body, ctx, st)
        if live is not None:
            live.nograd -= ng
        for d in done:
            d.st.nograd -= ng
        if live is not None:
            for v in exits:
                self.event(ctx, live, "exit", v, s)
        return live, done

    def s_Try(self, s, ctx, st):
        a = st.fork()
        la, da = self.block(s.body + s.orelse, ctx, a)
        live, done = la, da
        for h in s.handlers:
            nm = deco_name(h.type) if h.type is not None and not isinstance(h.type, ast.Tuple) else "any"
            c = mk("exc", const(nm), const(self.tries.setdefault(id(s), len(self.tries))))
            b = st.fork()
            b.path = b.path + (c,)
            if h.name:
                b.frames[ctx.fid][h.name] = mk("sym", "exc:" + nm)
            lb, db = self.block(h.body, ctx, b)
            base = st
            if live is not None and lb is not None:
                live2 = live.fork()
                live2.path = live.path + (not_(c),)
                live = self.merge(not_(c), live2, lb, base)
                done = done + db
            elif live is None:
                # body always leaves: results are gated by not raising
                done = db + done
                live = lb
            else:
                done = db + done
        if s.finalbody and live is not None:
            live, d2 = self.block(s.finalbody, ctx, live)
            done = done + d2
        return live, done

    # ------------------------------------------------------------ loops
    def iterated(self, node, ctx, st):
        """the value a loop runs over; a parameter declared a dictionary gives its keys"""
        it = self.ev(node, ctx, st)
        if it in self.dictsyms:
            return op("keys", (it,))
        if isinstance(node, (ast.Name, ast.Attribute)) and ctx.func is not None and it.op in ("sym", "attr", "item", "call"):
            a = ctx.func.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.annotation is not None and is_dict_annotation(x.annotation) and (
                        isinstance(node, ast.Name) and x.arg == node.id or st.frames[ctx.fid].get(x.arg) is it):
                    return op("keys", (it,))
            if it.op == "attr" and it.args[0] is self.ctorsym and ctx.cls is not None:
                f = self.ix.find_method(ctx.cls, "__init__")
                a = f.node.args if f is not None else None
                for x in a.posonlyargs + a.args + a.kwonlyargs if a is not None else ():
                    if x.arg == it.args[1] and x.annotation is not None and is_dict_annotation(x.annotation):
                        return op("keys", (it,))
        return it

    def s_For(self, s, ctx, st):
        it = self.iterated(s.iter, ctx, st)
        elems = self.concrete(it, st)
        if elems is not None and len(elems) <= 40:
            return self.unroll(s, elems, ctx, st)
        gated = self.alternatives(it, st)
        if gated is not None:
            return self.unroll(s, [e for _, e in gated], ctx, st, [g for g, _ in gated])
        n, elem = self.domain(it, st)
        return self.symloop(s, n, elem, ctx, st)

    def concrete(self, it, st):
        t = self.deep(st, it)
        if t.op in ("list", "tuple", "set"):
            if any(e.op == "star" for e in t.args):
                return None
            if it.op == "ref":
                raw = st.heap[it]
                if raw.op == t.op:
                    return list(raw.args)
            return list(t.args)
        if t.op == "dict":
            return [k for k, _ in t.args]
        if t.op == "op":
            nm = t.args[0]
            a = t.args[1]
            if nm in ("keys", "items", "values_of") and a[0].op == "dict":
                d = a[0].args
                if nm == "keys":
                    return [k for k, _ in d]
                if nm == "items":
                    return [mk("tuple", k, v) for k, v in d]
                return [v for _, v in d]
            if nm == "zipl":
                ls = [self.concrete(x, st) for x in a]
                if any(l is None for l in ls):
                    cs = [l for l in ls if l is not None]
                    if not cs:
                        return None
                    n = min(len(l) for l in cs)
                    return [mk("tuple", *[(l[i] if l is not None else item(a[j], const(i))) for j, l in enumerate(ls)])
                            for i in range(n)]
                return [mk("tuple", *x) for x in zip(*ls)]
            if nm == "range":
                if all(is_num(x) for x in a):
                    r = range(*[int(x.args[1]) for x in a])
                    if len(r) <= 40:
                        return [const(i) for i in r]
                return None
            if nm == "sorted" and a[0].op in ("list", "tuple", "set") and not t.args[2]:
                if all(is_str(x) for x in a[0].args):
                    return sorted(a[0].args, key=lambda x: x.args[1])
            if nm == "reversed":
                l = self.concrete(a[0], st)
                return None if l is None else l[::-1]
        if t.op == "cls":
            c = self.ix.get(t.args[0])
            if isinstance(c, Class) and self.ix.is_enum(c):
                return [self.enum_member(c, k) for k in c.attrs if not k.startswith("_")]
        return None

    def alternatives(self, it, st, depth=3):
        """[(condition, element)] of a list that depends on a few conditions, None if it is not one"""
        t = self.deep(st, it)
        elems = self.concrete(t, st)
        if elems is not None:
            return [(TRUE, e) for e in elems] if len(elems) <= 12 else None
        if depth == 0:
            return None
        if t.op == "op" and t.args[0] in ("zipl", "enumerate", "reversed", "sorted", "items", "keys", "values_of", "iter", "listof"):
            i = next((i for i, x in enumerate(t.args[1]) if x.op == "ite"), None)
            if i is None:
                return None
            c, x, y = t.args[1][i].args
            put = lambda v: op(t.args[0], t.args[1][:i] + (v,) + t.args[1][i + 1:], t.args[2])
            t = mk("ite", c, put(x), put(y))
        if t.op != "ite":
            return None
        c = t.args[0]
        a, b = self.alternatives(t.args[1], st, depth - 1), self.alternatives(t.args[2], st, depth - 1)
        if a is None or b is None or len(a) + len(b) > 24:
            return None
        n = 0
        while n < min(len(a), len(b)) and a[n] == b[n]:
            n += 1
        return a[:n] + [(and_(c, g), e) for g, e in a[n:]] + [(and_(not_(c), g), e) for g, e in b[n:]]

    def domain(self, it, st):
        """(count term, function index -> element)"""
        t = self.deep(st, it)
        if t.op == "op":
            nm, a = t.args[0], t.args[1]
            if nm == "range":
                n = O.range_len(*a)
                if a[2] is not ONE and not (is_num(a[2]) and a[2].args[1] == -1):
                    return mk("op", "rangelen", a, ()), (lambda i: add(a[0], mul(a[2], i)))
                return n, (lambda i: add(a[0], mul(a[2], i)))
            if nm == "zipl":
                subs = [self.domain(x, st) for x in a]
                n = subs[0][0]
                for m, _ in subs[1:]:
                    d = sub(m, n)  # operands are of one length unless one is a slice of the other's list
                    if is_num(d) and d.op == "const" and d.args[1] < 0:
                        n = m
                return n, (lambda i: mk("tuple", *[f(i) for _, f in subs]))
            if nm == "enumerate":
                n, f = self.domain(a[0], st)
                start = a[1] if len(a) > 1 else ZERO
                return n, (lambda i: mk("tuple", add(start, i), f(i)))
            if nm == "reversed":
                n, f = self.domain(a[0], st)
                return n, (lambda i: f(sub(sub(n, i), ONE)))
            if nm in ("items", "keys", "values_of"):
                return length(a[0]), (lambda i: item(t, i))
            if nm == "iter" or nm == "listof":
                return self.domain(a[0], st)
        if t.op == "dict":
            pass
        if t.op == "dictmap":
            return t.args[1], (lambda i: mk("keyat", t, i))
        return length(t), (lambda i: item(t, i))

    def unroll(self, s, elems, ctx, st, gates=()):
        done = []
        live = st
        brks = []
        for i, e in enumerate(elems):
            if live is None:
                break
            base = live
            c = self.simp(live, gates[i]) if gates else TRUE
            if c is FALSE:
                continue
            if c is not TRUE:
                a, b = live.fork(), live.fork()
                a.path = a.path + (c,)
                self.assume(a, c, True)
                b.path = b.path + (not_(c),)
                self.assume(b, c, False)
                self.assign(s.target, e, ctx, a)
                la, da = self.block(s.body, ctx, a)
                live, d = self.join(c, la, da, b, [], live)
            else:
                self.assign(s.target, e, ctx, live)
                live, d = self.block(s.body, ctx, live)
            conts = [x for x in d if x.kind == "cont"]
            brks += [x for x in d if x.kind == "brk"]
            done += [x for x in d if x.kind in ("ret", "raise")]
            live = self.rejoin(live, conts, base)
        if live is not None and s.orelse:
            live, d = self.block(s.orelse, ctx, live)
            done += d
        live = self.rejoin(live, brks, st)
        return live, done

    def rejoin(self, live, outs, base):
        """merge states that left through continue/break back in; gates are absolute path conditions"""
        r = live
        for d in reversed(outs):
            c = and_(*d.st.path[len(base.path):]) if len(d.st.path) > len(base.path) else TRUE
            if r is None:
                r = d.st
                continue
            b = base.fork()
            b.path = base.path
            b.events = base.events
            r2 = self.merge(c, _repath(d.st, base, c), _repath(r, base, not_(c)), b)
            # event order: union keeping program order
            r2.events = _union_events(base.events, d.st.events, r.events)
            r = r2
        return r

    def symloop(self, s, n, elem, ctx, st, cond=None):
        """one symbolic iteration; closes carried values"""
        if n is ZERO:
            return st, []
        names = _assigned(s.body) | (_targets(s.target) if cond is None else set())
        names = sorted(names)
        condnames = _cond_assigned(s.body)
        f0 = st.frames[ctx.fid]
        hkeys = []
        for attempt in range(6):
            idx = T.fresh("i")
            w = st.fork()
            w.events = []
            w.facts = {k: v for k, v in st.facts.items()}
            carry = {}
            for nm in names:
                c = T.fresh("c_" + nm)
                carry[("var", nm)] = c
                old = f0.get(nm, UNDEF)
                if old.op == "ref":
                    continue  # the reference itself is stable unless rebound
                if old is not UNDEF or nm in condnames:
                    w.frames[ctx.fid][nm] = c
            for k in hkeys:
                c = T.fresh("h")
                carry[k] = c
                w.heap[k] = c
            base = w.fork()
            if cond is not None:
                cnd = self.cond(cond, ctx, w)
            else:
                cnd = None
                self.assign(s.target, elem(idx), ctx, w)
            plen = len(w.path)
            live, d = self.block(s.body, ctx, w)
            end = self.rejoin(live, [x for x in d if x.kind == "cont"], base)
            brks = [x for x in d if x.kind == "brk"]
            rets = [x for x in d if x.kind == "ret"]
            new = set()
            for x in [end] + [b.st for b in brks + rets]:
                if x is None:
                    continue
                for k, v in x.heap.items():
                    if k not in carry and base.heap.get(k) is not v:
                        if isinstance(k, Term) and k.op == "ref" and k not in st.heap:
                            continue  # object local to the iteration
                        new.add(k)
            if not new:
                break
            hkeys = sorted(set(hkeys) | new, key=str)
        # end-of-iteration values
        ref_end = end if end is not None else (brks + rets)[0].st if (brks + rets) else st
        plen0 = len(st.path)

        def rel(dn):
            return and_(*dn.st.path[plen0:]) if dn.st is not None else TRUE

        brkc = or_(*[rel(b) for b in brks]) if brks else FALSE
        retc = or_(*[rel(b) for b in rets]) if rets else FALSE
        stopc = or_(brkc, retc)
        ups, inits = {}, {}
        bflag = None
        if stopc is not FALSE:
            bflag = T.fresh("stop")

        def get(state, k):
            if isinstance(k, tuple) and k[0] == "var" and len(k) == 2 and isinstance(k[1], str):
                v = state.frames[ctx.fid].get(k[1], UNDEF)
            else:
                v = state.heap.get(k, carry.get(k))
            if v is UNDEF:
                return UNDEF
            return self.deep_local(state, st, v)

        for k, c in carry.items():
            isvar = isinstance(k, tuple) and k[0] == "var"
            init = f0.get(k[1], UNDEF) if isvar else st.heap.get(k, self.heap_initial(k))
            if isvar and init.op == "ref":
                # rebound?
                cur = ref_end.frames[ctx.fid].get(k[1], UNDEF)
                if cur is init:
                    continue
                init = self.deep(st, init)
            u = get(end, k) if end is not None else UNDEF
            if u is UNDEF and end is not None:
                continue
            for b in reversed(brks + rets):
                vb = get(b.st, k)
                if vb is UNDEF:
                    continue
                u = vb if u is UNDEF else ite(rel(b), vb, u)
            if u is UNDEF:
                continue
            if bflag is not None and init is not UNDEF:
                u = ite(bflag, c, u)
            ups[k] = u
            inits[k] = self.deep(st, init) if isinstance(init, Term) else init
        cs = dict(carry)
        if bflag is not None:
            cs["__stop"] = bflag
            ups["__stop"] = or_(bflag, stopc)
            inits["__stop"] = FALSE
        retk = None
        if rets:
            if brks:
                cs["__retf"] = T.fresh("rf")
                ups["__retf"] = ite(bflag, cs["__retf"], retc)
                inits["__retf"] = FALSE
            rv = None
            for b in reversed(rets):
                v = self.deep(b.st, b.val)
                rv = v if rv is None else ite(rel(b), v, rv)
            cs["__ret"] = T.fresh("rv")
            ups["__ret"] = ite(bflag, cs["__ret"], ite(retc, rv, cs["__ret"]))
            inits["__ret"] = NONE
        if cnd is not None:
            final, at = self.close_while(cnd, ups, inits, cs, idx)
            reps = self.close_while(cnd if bflag is None else and_(cnd, not_(bflag)), ups, inits, cs, idx, True)
        else:
            final, at = self.close_loop(n, idx, ups, inits, cs)
        out = st.fork()
        for k in ups:
            if k in ("__stop", "__retf", "__ret"):
                continue
            if isinstance(k, tuple) and k[0] == "var" and isinstance(k[1], str):
                v = final[k]
                out.frames[ctx.fid][k[1]] = self.ref(out, v) if v.op in REFKINDS else v
            else:
                out.heap[k] = final[k]
        # events of the body
        evs = []
        src = _union_events([], *[x.events for x in [end] + [b.st for b in brks + rets] if x is not None])
        for e in src:
            val = self.deep_local(ref_end, st, e.val) if isinstance(e.val, Term) else e.val
            g = e.gate
            pre = and_(*st.path)
            g = and_(*[x for x in (g.args if g.op == "and" else (g,)) if x not in (pre.args if pre.op == "and" else (pre,))])
            if bflag is not None:
                g = and_(g, not_(bflag))
            if cnd is not None and e.kind != "raise":
                g = and_(g, reps)
            sm = {cs[k]: at[k] for k in at if k in cs}
            val2 = T.subst(mk("tuple", g, val), sm) if isinstance(val, Term) else mk("tuple", T.subst(g, sm), NONE)
            if cnd is None:
                closed = close("map", [n, val2], [idx])
            else:
                closed = close("lam", [ONE, val2], [idx])
            if e.kind == "raise":
                gg = val2.args[0]
                anyc = not_(close("all", [n, not_(gg)], [idx])) if cnd is None else unk("whileraise", closed)
                evs.append(Event(e.kind, e.val, and_(pre, anyc), e.node, e.func, e.nograd))
            else:
                evs.append(Event(e.kind, mk("each", closed), pre, e.node, e.func, e.nograd))
        out.events = st.events + evs
        done = []
        if rets:
            rf = final["__retf"] if brks else final["__stop"]
            dst = out.fork()
            done.append(Done("ret", and_(*(st.path + (rf,))), dst, final["__ret"]))
            dst.path = st.path + (rf,)
            out.path = st.path + (not_(rf),)
            self.assume(out, rf, False)
        if getattr(s, "orelse", None):
            live, d = self.block(s.orelse, ctx, out)
            return live, done + d
        return out, done

    def deep_local(self, state, outer, t):
        """dereference objects created inside the iteration; keep outer refs"""
        if not isinstance(t, Term) or not _has_ref(t):
            return t
        m = {}
        for r in T.subterms(t):
            if r.op == "ref" and r in state.heap:
                m[r] = self.deep(state, state.heap[r])
        return T.subst(t, m)

    def close_loop(self, n, idx, ups, inits, cs):
        """closed forms of the carried variables: final values, and values at iteration idx"""
        at = {}
        final = {}
        keys = list(ups)
        pend = dict(ups)
        byfresh = {cs[k]: k for k in keys}

        def deps(t):
            out = set()
            if T.has_fresh(t):
                for s_ in T.subterms(t):
                    if s_ in byfresh:
                        out.add(byfresh[s_])
            return out

        progress = True
        while pend and progress:
            progress = False
            for k in list(pend):
                u = T.subst(pend[k], {cs[j]: at[j] for j in at}) if at else pend[k]
                pend[k] = u
                dk = deps(u)
                if dk - {k}:
                    continue
                f = self.closed(u, cs[k], idx, inits[k])
                final[k] = f(n)
                at[k] = f(idx)
                del pend[k]
                progress = True
                if at[k].size > 200000:
                    at[k] = final[k] = unk("loopsize")
        # joint folds for the remaining mutually dependent variables
        if pend:
            rem = list(pend)
            ds = {k: deps(pend[k]) for k in rem}
            for k in rem:
                order = []

                def dfs(j):
                    if j in order or j not in pend:
                        return
                    order.append(j)
                    for d in sorted(ds[j], key=lambda q: (_blind(pend.get(q), byfresh, idx), str(q))):
                        dfs(d)

                dfs(k)
                fr = [idx] + [cs[j] for j in order]
                inl = tuple(inits[j] if inits[j] is not UNDEF else NONE for j in order)
                upl = tuple(pend[j] for j in order)
                final[k] = close("fold", [n, inl, upl, 0], fr)
                at[k] = None
                final[k] = final[k]
                nn = T.fresh("n")
                gen = close("fold", [nn, inl, upl, 0], fr)
                at[k] = T.subst(gen, {nn: idx})
        return final, at

    def closed(self, u, c, idx, init):
        """u: update term over c (own carry) and idx.  Returns n -> value after n iterations."""
        if u is c:
            return lambda n: init
        if not T.occurs(u, c):
            def last(n):
                prev = T.subst(u, {idx: sub(n, ONE)})
                if init is UNDEF:
                    return prev
                return ite(cmp("==", n, ZERO), init, prev)
            return last
        if init is UNDEF:
            init = NONE
        if _isarray(init):
            u = _flatsets(u)
        if init in (TRUE, FALSE):
            u = _boolcarry(u, c)

        def gen(build):
            """build(n) must close over idx; idx itself may be the requested n"""
            def f(n):
                nn = T.fresh("n")
                return T.subst(build(nn), {nn: n})
            return f

        d = _delta(u, c)
        if d is not None:
            return gen(lambda n: add(init, close("sum", [n, d], [idx])))
        d = _ratio(u, c)
        if d is not None:
            if not T.occurs(d, idx):
                return gen(lambda n: mul(init, O.pow_(d, n)))
            return gen(lambda n: mul(init, op("prod", (close("map", [n, d], [idx]),))))
        d = _appends(u, c)
        if d is not None:
            parts = d
            def build(n):
                g, e, flat = parts
                if flat:
                    inner = ite(g, e, mk("list"))
                    x = close("flat", [n, inner], [idx])
                else:
                    x = close("fmap", [n, g, e], [idx])
                return concat(init, x)
            return gen(build)
        d = _sets(u, c)
        if d is not None:
            g, k, v = d
            def build(n):
                x = close("dictmap", [n, g, k, v], [idx])
                if init.op == "dict" and not init.args:
                    return x
                return O.updated(init, x)
            return gen(build)
        d = _bools(u, c)
        if d is not None:
            kind, g = d
            if kind == "or":
                return gen(lambda n: or_(init, close("any", [n, g], [idx])))
            return gen(lambda n: and_(init, close("all", [n, g], [idx])))
        return gen(lambda n: close("fold", [n, (init,), (u,), 0], [idx, c]))

    def close_while(self, cnd, ups, inits, cs, idx, reps=False):
        final, at = {}, {}
        keys = list(ups)
        byfresh = {cs[k]: k for k in keys}

        def deps(t):
            return {byfresh[x] for x in T.subterms(t) if x in byfresh} if T.has_fresh(t) else set()

        ds = {k: deps(ups[k]) for k in keys}
        dc = deps(cnd)
        for k in ([None] if reps else keys):
            order = []

            def dfs(j):
                if j in order or j not in ups:
                    return
                order.append(j)
                for d in sorted(ds[j], key=lambda q: (_blind(ups.get(q), byfresh, idx), str(q))):
                    dfs(d)

            if not reps:
                dfs(k)
            for d in sorted(dc, key=lambda q: (_blind(ups.get(q), byfresh, idx), str(q))):
                dfs(d)
            fr = [idx] + [cs[j] for j in order]
            inl = tuple(inits[j] if inits[j] is not UNDEF else NONE for j in order)
            upl = tuple(ups[j] for j in order)
            if reps:
                return close("while", [mk("repeats", cnd), inl, upl, 0], fr)
            final[k] = self.settled(close("while", [cnd, inl, upl, 0], fr), ups[k], inits[k], cnd, inits, ups, cs, idx)
            at[k] = close("while", [mk("before", idx, cnd), inl, upl, 0], fr)
        return final, at

    def settled(self, whole, u, init, cnd, inits, ups, cs, idx):
        """a variable only set inside the loop, to something that carries nothing over: its value is that of the last
        iteration's opaque calls, whichever of them are read inside or after the loop"""
        if init is not UNDEF and init is not NONE or T.occurs(u, idx) or any(T.occurs(u, c) for c in cs.values()):
            return whole
        calls = [x for x in T.subterms(u) if x.op == "call"]
        calls = [x for x in calls if not any(y.op == "call" for y in T.subterms(x) if y is not x)]
        if not calls:
            return whole
        reps = self.close_while(cnd, ups, inits, cs, idx, reps=True)
        return T.subst(u, {x: mk("settled", reps, x) for x in calls})

    def s_While(self, s, ctx, st):
        c = self.simp(st, self.cond(s.test, ctx, st.fork()))
        if c is FALSE:
            return st, []
        if isinstance(s.test, ast.Constant) and ctx.func is not None:
            b = breaking_loop(s, ctx.func.node)
            if b is not None:
                flag, s = b
                st.frames[ctx.fid][flag] = FALSE
        f = counting_loop(s)
        if f is not None and s.test is not None:
            v = f.target.id
            start = self.deep(st, self.lookup(v, ctx, st))
            if len(f.iter.args) == 3 or start is ZERO or start.op == "const":
                end = self.deep(st, self.ev(f.exit, ctx, st.fork()))
                r = self.s_For(f, ctx, st)
                if r[0] is not None:
                    r[0].frames[ctx.fid][v] = end
                return r
        return self.symloop(s, None, None, ctx, st, cond=s.test)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, ctx, st):
        if isinstance(t, ast.Name):
            st.frames[ctx.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            dv = self.deep(st, v) if v.op == "ref" else v
            dv = O.parted(dv, len(t.elts)) or dv
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts)
                for j in range(i):
                    self.assign(t.elts[j], item(dv, const(j)), ctx, st)
                after = n - i - 1
                self.assign(t.elts[i].value,
                            item(dv, mk("slice", const(i), const(-after) if after else NONE, NONE)), ctx, st)
                for j in range(after):
                    self.assign(t.elts[n - 1 - j], item(dv, const(-1 - j)), ctx, st)
                return
            vals = [item(dv, const(i)) for i in range(len(t.elts))]
            for e, x in zip(t.elts, vals):
                self.assign(e, x, ctx, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, ctx, st)
            self.store_attr(t.value, base, t.attr, v, ctx, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev_loc(t.value, ctx, st)
            key = self.ev_key(t.slice, ctx, st)
            cur = self.content(base, st)
            self.event(ctx, st, "setitem", mk("tuple", base if base.op != "ref" else const("local"), key, self.deep(st, v)), t)
            if cur.op == "rec" or base.op == "sym" and False:
                pass
            self.write_content(t.value, base, self.set_sub(cur, key, self.deep(st, v)), ctx, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, ctx, st)

    def set_sub(self, cur, key, v):
        if key.op == "slice" and all(x is NONE for x in key.args):
            return op("full_like", (cur, v)) if v.op == "const" else v
        return setitem(cur, key, T.truthy(v) if v in self.boolsyms else v)

    def content(self, base, st):
        if base.op == "ref":
            return self.deep(st, base)
        r = st.heap.get(("content", base))
        return r if r is not None else base

    def write_content(self, node, base, val, ctx, st):
        if base.op == "ref":
            st.heap[base] = val
            return
        if isinstance(node, ast.Attribute):
            b = self.ev(node.value, ctx, st)
            self.store_attr(node.value, b, node.attr, val, ctx, st, node)
            return
        if isinstance(node, ast.Subscript) and base.op == "item":
            r = self.ev_loc(node.value, ctx, st)
            c = self.content(r, st)
            if c.op not in ("attr", "sym", "item") or c.op == "attr" and c.args[0] in self.objcls or c.op == "item" and isinstance(node.value, ast.Subscript):
                self.write_content(node.value, r, self.set_sub(self.content(r, st), self.ev_key(node.slice, ctx, st), val), ctx, st)
                return
        if base.op in ("attr", "sym", "item", "call"):
            st.heap[("content", base)] = val
            return
        if isinstance(node, ast.Name):
            st.frames[ctx.fid][node.id] = val
            if base.op in ("setitem", "updated"):  # the same container under other names
                for k, v in st.heap.items():
                    if v is base and k.__class__ is tuple and k[0] == "attr":
                        st.heap[k] = val
                f = st.frames[ctx.fid]
                for k, v in f.items():
                    if v is base:
                        f[k] = val
            return
        if isinstance(node, ast.Subscript):
            b = self.ev_loc(node.value, ctx, st)
            k = self.ev_key(node.slice, ctx, st)
            self.write_content(node.value, b, self.set_sub(self.content(b, st), k, val), ctx, st)

    def store_attr(self, node, base, name, v, ctx, st, at):
        if base.op == "rec":
            d = list(base.args[1])
            for i, (k, _) in enumerate(d):
                if k == name:
                    d[i] = (k, self.deep(st, v))
                    break
            else:
                d.append((name, self.deep(st, v)))
            nb = mk("rec", base.args[0], tuple(d))
            if isinstance(node, ast.Name):
                st.frames[ctx.fid][node.id] = nb
            elif isinstance(node, ast.Attribute):
                b2 = self.ev(node.value, ctx, st)
                self.store_attr(node.value, b2, node.attr, nb, ctx, st, at)
            return
        cls = self.objcls.get(base)
        if cls is not None:
            for c in self.ix.mro(cls):
                if name in c.setters:
                    self.inline(c.setters[name], [base, v], {}, st, selft=base, cls=cls, caller=ctx)
                    return
        if base.op == "ite":
            # store through a gated reference
            for leaf in O._leaves(base):
                st.heap[("attr", leaf, name)] = ite(_leafcond(base, leaf), v, st.heap.get(("attr", leaf, name), mk("attr", leaf, name)))
            return
        st.heap[("attr", base, name)] = v
        self.event(ctx, st, "store", mk("tuple", base, const(name), v if v.op != "ref" else self.deep(st, v)), at)

    # ------------------------------------------------------------ expressions
    def cond(self, node, ctx, st):
        """condition term of an expression in boolean context"""
        if isinstance(node, ast.BoolOp):
            cs = []
            s2 = st
            for v in node.values:
                cs.append(self.simp(st, self.cond(v, ctx, s2)))
            return and_(*cs) if isinstance(node.op, ast.And) else or_(*cs)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not_(self.cond(node.operand, ctx, st))
        v = self.ev(node, ctx, st)
        return self.simp(st, truthy(self.deep(st, v)))

    def ev(self, node, ctx, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.unknowns.append((ctx.func, node))
            return unk("expr:" + type(node).__name__, const(ast.dump(node)))
        return m(node, ctx, st)

    def evd(self, node, ctx, st):
        return self.deep(st, self.ev(node, ctx, st))

    def e_Constant(self, node, ctx, st):
        return const(node.value)

    def e_Name(self, node, ctx, st):
        v = self.lookup(node.id, ctx, st)
        return self.overlay(v, st)

    def overlay(self, v, st):
        if v.op in ("attr", "sym", "item", "call"):
            r = st.heap.get(("content", v))
            if r is not None:
                return r
        return v

    def ev_loc(self, node, ctx, st):
        """evaluate as a location (without content overlay)"""
        if isinstance(node, ast.Name):
            return self.lookup(node.id, ctx, st)
        if isinstance(node, ast.Attribute):
            b = self.ev(node.value, ctx, st)
            return self.getattr(b, node.attr, ctx, st, raw=True)
        if isinstance(node, ast.Subscript):
            b = self.ev_loc(node.value, ctx, st)
            k = self.ev_key(node.slice, ctx, st)
            cb = self.content(b, st)
            return item(self.deep(st, cb), k)
        return self.ev(node, ctx, st)

    def lookup(self, name, ctx, st):
        f = st.frames[ctx.fid]
        if name in f:
            return f[name]
        # enclosing frames (closures)
        fn = f.get("__parent__")
        while fn is not None:
            pf = st.frames.get(fn)
            if pf is None:
                break
            if name in pf:
                return pf[name]
            fn = pf.get("__parent__")
        return self.lookup_global(name, ctx)

    def lookup_global(self, name, ctx):
        r = self.ix.resolve_in(ctx.module, name) if ctx.module is not None else None
        if r is None:
            if name == "ctor":
                return self.ctorsym
            if name in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[name])
            return mk("mod", "builtins." + name)
        return self.from_resolved(r, ctx, name)

    def from_resolved(self, r, ctx, name):
        if isinstance(r, Func):
            return mk("func", r.qual)
        if isinstance(r, Class):
            return mk("cls", r.qual)
        if isinstance(r, Module):
            return mk("mod", r.name)
        if r is None:
            return mk("mod", "builtins." + name)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return mk("mod", r[1])
        if r[0] == "assign":
            return self.module_const(r[2], name, r[1])
        return unk("resolve", const(name))

    def module_const(self, module, name, expr):
        key = (module.name, name, id(expr))
        if key in self._modcache:
            return self._modcache[key]
        self._modcache[key] = mk("attr", mk("mod", module.name), name)
        if isinstance(expr, (ast.Call,)) and not _pure_const_call(expr):
            dn = deco_name(expr)
            if dn.split(".")[-1] in ("getLogger",):
                self._modcache[key] = mk("mod", "logging.logger")
            elif dn.split(".")[-1] in ("frozenset", "set", "list", "dict", "tuple", "sum", "len", "OrderedDict"):
                st = State()
                ctx = self.modctx(module, st)
                self._modcache[key] = self.deep(st, self.ev(expr, ctx, st))
            return self._modcache[key]
        st = State()
        ctx = self.modctx(module, st)
        try:
            v = self.deep(st, self.ev(expr, ctx, st))
        except RecursionError:
            v = self._modcache[key]
        self._modcache[key] = v
        return v

    def modctx(self, module, st):
        fid = next(self.nframe)
        st.frames[fid] = {}
        return Ctx(None, module, None, None, fid, None, 0)

    def e_Tuple(self, node, ctx, st):
        return mk("tuple", *self.elts(node.elts, ctx, st))

    def elts(self, es, ctx, st):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.evd(e.value, ctx, st)
                c = self.concrete(v, st)
                if c is not None:
                    out.extend(c)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(e, ctx, st))
        return out

    def e_List(self, node, ctx, st):
        return self.ref(st, self._starlist(self.elts(node.elts, ctx, st)))

    def _starlist(self, es):
        if not any(e.op == "star" for e in es):
            return mk("list", *es)
        r = mk("list")
        for e in es:
            r = concat(r, e.args[0] if e.op == "star" else mk("list", e))
        return r

    def e_Set(self, node, ctx, st):
        return self.ref(st, mk("set", *sorted(set(self.elts(node.elts, ctx, st)), key=lambda t: t.dig)))

    def e_Dict(self, node, ctx, st):
        d = mk("dict")
        for k, v in zip(node.keys, node.values):
            if k is None:
                d = self.dict_update(d, self.evd(v, ctx, st))
            else:
                d = setitem(d, self.evd(k, ctx, st), self.ev(v, ctx, st)) if d.op == "dict" else setitem(
                    d, self.evd(k, ctx, st), self.evd(v, ctx, st))
        if d.op == "setitem" and False:
            pass
        return self.ref(st, self._dictnorm(node, d, ctx, st))

    def _dictnorm(self, node, d, ctx, st):
        return d

    def dict_update(self, d, e):
        if e.op == "dict":
            for k, v in e.args:
                d = setitem(d, k, v)
            return d
        if d.op == "dict" and not d.args:
            return e
        return O.updated(d, e)

    def e_Starred(self, node, ctx, st):
        return mk("star", self.evd(node.value, ctx, st))

    def e_JoinedStr(self, node, ctx, st):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.evd(v.value, ctx, st)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    x = mk("fmtspec", x, const(ast.dump(v.format_spec) if v.format_spec else ""), const(v.conversion))
                parts.append(x)
        return fmt(parts)

    def e_Lambda(self, node, ctx, st):
        return self.mkclosure(node, ctx)

    def mkclosure(self, node, ctx):
        k = (id(node), ctx.fid)
        self.closures[k] = (node, ctx)
        return mk("closure", k)

    def e_IfExp(self, node, ctx, st):
        c = self.cond(node.test, ctx, st)
        if c is TRUE:
            return self.ev(node.body, ctx, st)
        if c is FALSE:
            return self.ev(node.orelse, ctx, st)
        a, b = st.fork(), st.fork()
        a.path += (c,)
        b.path += (not_(c),)
        self.assume(a, c, True)
        self.assume(b, c, False)
        va = self.ev(node.body, ctx, a)
        vb = self.ev(node.orelse, ctx, b)
        m = self.merge(c, a, b, st)
        r = self.mergeval(c, va, vb, a, b)
        self.become(st, m)
        return r

    def become(self, st, m):
        for s in State.__slots__:
            if s in ("path", "facts"):
                continue
            setattr(st, s, getattr(m, s))

    def e_NamedExpr(self, node, ctx, st):
        v = self.ev(node.value, ctx, st)
        self.assign(node.target, v, ctx, st)
        return v

    def e_BoolOp(self, node, ctx, st):
        vals = []
        s2 = st
        for i, v in enumerate(node.values):
            vals.append(self.evd(v, ctx, st))
        isand = isinstance(node.op, ast.And)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            c = self.simp(st, truthy(v))
            if c is v or is_bool(v):
                r = and_(v, r) if isand and _isbool(r) else or_(v, r) if not isand and _isbool(r) else (
                    ite(c, r, v) if isand else ite(c, v, r))
            else:
                r = ite(c, r, v) if isand else ite(c, v, r)
        return r

    def e_UnaryOp(self, node, ctx, st):
        v = self.evd(node.operand, ctx, st)
        if isinstance(node.op, ast.Not):
            return not_(self.simp(st, truthy(v)))
        if isinstance(node.op, ast.USub):
            return neg(v)
        if isinstance(node.op, ast.UAdd):
            return v
        return not_(v)

    def e_BinOp(self, node, ctx, st):
        a = self.ev(node.left, ctx, st)
        b = self.ev(node.right, ctx, st)
        if isinstance(node.op, ast.Add) and any(x.op == "ref" and x not in self.objcls for x in (a, b)):
            x, y = self.deep(st, a), self.deep(st, b)
            if not any(z.op in ("rec", "dict", "new", "const") or _stringy(z) for z in (x, y)):
                return self.ref(st, concat(x, y))  # list(xs) + list(ys)
        return self.binop(BINOP[type(node.op)], a, b, st)

    def binop(self, o, a, b, st=None):
        if st is not None:
            a, b = self.deep(st, a), self.deep(st, b)
        if o == "add":
            if _listy(a) or _listy(b):
                return concat(a, b)
            if _stringy(a) or _stringy(b):
                return fmt([a, b])
            return add(a, b)
        if o == "sub":
            return sub(a, b)
        if o == "mul":
            if a.op == "list" and is_num(b) and b.args[1].denominator == 1 and 0 <= b.args[1] <= 20:
                return mk("list", *(a.args * int(b.args[1])))
            if b.op == "list" and is_num(a):
                return self.binop("mul", b, a)
            if a.op == "list" or b.op == "list" or _stringy(a) or _stringy(b):
                if b.op == "list":
                    a, b = b, a
                if a.op == "list" and len(a.args) == 1 and a.args[0].op not in ("list", "map", "fmap", "dict", "concat", "tuple", "ref"):
                    return close("map", [b, a.args[0]], [T.fresh("i")])
                return op("repeatlist", (a, b))
            return mul(a, b)
        if o == "div":
            return div(a, b)
        if o == "pow":
            return O.pow_(a, b)
        if o == "and":
            return and_(a, b) if not (is_num(a) or is_num(b)) else mul(a, b)
        if o == "or":
            return or_(a, b)
        if o == "mod" and _stringy(a):
            return op("strformat", (a, b))
        if o in ("floordiv", "mod") and is_num(a) and is_num(b) and b.args[1] != 0:
            return const(a.args[1] // b.args[1] if o == "floordiv" else a.args[1] % b.args[1])
        return op(o, (a, b))

    def e_Compare(self, node, ctx, st):
        left = self.evd(node.left, ctx, st)
        out = []
        for o, c in zip(node.ops, node.comparators):
            r = self.evd(c, ctx, st)
            if isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and self.boolean(left) and self.boolean(r) and (self.pyboolean(left) or self.pyboolean(r)):
                x, y = truthy(left), truthy(r)
                e = or_(and_(x, y), and_(not_(x), not_(y)))
                out.append(self.simp(st, e if isinstance(o, (ast.Eq, ast.Is)) else not_(e)))
            elif isinstance(o, (ast.Eq, ast.NotEq)) and r in (TRUE, FALSE) and _masklike(node.left) and len(node.ops) == 1:
                out.append(left if (r is TRUE) == isinstance(o, ast.Eq) else not_(left))
            else:
                out.append(self.simp(st, cmp(CMPOP[type(o)], left, r)))
            left = r
        return and_(*out) if len(out) > 1 else out[0]

    def pyboolean(self, t):
        return t in self.boolsyms or t.op == "op" and t.args[0] in ("truth", "bool") or t.op == "not" and self.pyboolean(t.args[0])

    def boolean(self, t):
        return self.pyboolean(t) or t is TRUE or t is FALSE or t.op in ("not", "cmp") or t.op in ("and", "or") and all(self.boolean(x) for x in t.args)

    def e_Attribute(self, node, ctx, st):
        base = self.ev(node.value, ctx, st)
        return self.overlay(self.getattr(base, node.attr, ctx, st), st)

    def getattr(self, base, name, ctx, st, raw=False):
        if base.op == "ref":
            cls = self.objcls.get(base)
            if cls is None:
                c = self.deep(st, base)
                return mk("attr", base, name) if c.op != "rec" else attr(c, name)
        o = base.op
        if o == "mod":
            r = self.ix.resolve_dotted(base.args[0], name)
            return self.from_resolved(r, ctx, name)
        if o == "super":
            selft, cls, after = base.args[0], self.ix.get(base.args[1]), self.ix.get(base.args[2])
            f = self.ix.find_method(cls, name, after=after)
            if f is None:
                return mk("extmeth", const(name), selft)
            if f.is_property and f.qual not in self.opaque:
                return self.inline(f, [selft], {}, st, selft=selft, cls=cls, caller=ctx)
            return mk("bound", selft, f.qual, cls.qual)
        if o == "cls":
            return self.cls_attr(base, name, ctx, st)
        if o == "ite":
            leaves = O._leaves(base)
            if any(l in self.objcls or l.op in ("rec", "cls") for l in leaves):
                return ite(base.args[0], self.getattr(base.args[1], name, ctx, st), self.getattr(base.args[2], name, ctx, st))
        if name in self.volatile:
            return op("at", (mk("attr", base, name), st.heap.get(EPOCH, self.heap_initial(EPOCH))))
        h = st.heap.get(("attr", base, name))
        if h is not None:
            return h
        cls = self.objcls.get(base)
        if cls is not None:
            f = self.ix.find_method(cls, name)
            if f is not None:
                if f.is_property:
                    if f.qual in self.opaque or f.has("abstractproperty") or _unimplemented(f.node):
                        return mk("attr", base, name)
                    return self.inline(f, [base], {}, st, selft=base, cls=cls, caller=ctx)
                if f.is_static:
                    return mk("func", f.qual)
                if f.is_class:
                    return mk("bound", mk("cls", cls.qual), f.qual, cls.qual)
                return mk("bound", base, f.qual, cls.qual)
            if not self.ix.is_record(cls):
                a = self.ix.find_attr(cls, name)
                if a is not None and not self.is_mutable(cls, name):
                    s2 = State()
                    return self.deep(s2, self.ev(a[1], self.modctx(a[0].module, s2), s2))
        if o == "rec":
            c = self.ix.get(base.args[0])
            for k, v in base.args[1]:
                if k == name:
                    return v
            if isinstance(c, Class):
                f = self.ix.find_method(c, name)
                if f is not None:
                    if f.is_property:
                        return self.inline(f, [base], {}, st, selft=base, cls=c, caller=ctx)
                    if f.is_static:
                        return mk("func", f.qual)
                    if f.is_class:
                        return mk("bound", mk("cls", c.qual), f.qual, c.qual)
                    return mk("bound", base, f.qual, c.qual)
        if name in ("grad",) and False:
            pass
        if o in ("closure", "func", "bound", "lam"):
            return mk("attr", base, name) if o != "closure" else mk("attr", sym("closure"), name)
        if name == "shape" and (base is self.ctorsym or base in self.objcls):
            return mk("attr", base, name)
        if name == "ndim":
            return length(attr(base, "shape"))
        return attr(base, name)

    def cls_attr(self, base, name, ctx, st):
        c = self.ix.get(base.args[0])
        if not isinstance(c, Class):
            return mk("attr", base, name)
        if self.ix.is_enum(c):
            a = self.ix.find_attr(c, name)
            if a is not None:
                return self.enum_member(a[0], name)
        f = self.ix.find_method(c, name)
        if f is not None:
            if f.is_static:
                return mk("func", f.qual)
            if f.is_class:
                return mk("bound", base, f.qual, c.qual)
            return mk("func", f.qual)
        h = st.heap.get(("attr", base, name))
        if h is not None:
            return h
        for k in self.ix.mro(c):
            if name in k.nested:
                return mk("cls", k.nested[name].qual)
        a = self.ix.find_attr(c, name)
        if a is not None:
            s2 = State()
            return self.deep(s2, self.ev(a[1], self.modctx(a[0].module, s2), s2))
        return mk("attr", base, name)

    def enum_member(self, c, name):
        return mk("enum", c.qual, name)

    def enum_value(self, qual, name):
        c = self.ix.get(qual)
        a = self.ix.find_attr(c, name) if isinstance(c, Class) else None
        if a is not None and isinstance(a[1], ast.Constant) and isinstance(a[1].value, (str, int, float)) and not isinstance(a[1].value, bool):
            return const(a[1].value)
        return None

    def e_Subscript(self, node, ctx, st):
        base = self.ev(node.value, ctx, st)
        key = self.ev_key(node.slice, ctx, st)
        return self.overlay(self.subscript(base, key, st), st)

    def subscript(self, base, key, st):
        if base.op == "ref":
            raw = st.heap.get(base)
            if raw is not None and raw.op in ("list", "tuple", "dict"):
                r = item(raw, key)
                if r.op != "item" or r.args[0] is not raw:
                    return self.ref(st, r) if r.op == "list" and key.op == "slice" else r
            base = self.deep(st, base)
        elif _has_ref(base) and base.op in ("tuple", "dict", "list"):
            r = item(base, key)
            if r.op != "item":
                return r
            base = self.deep(st, base)
        return item(base, key)

    def ev_key(self, node, ctx, st):
        if isinstance(node, ast.Slice):
            f = lambda x: self.evd(x, ctx, st) if x is not None else NONE
            lo, hi, stp = f(node.lower), f(node.upper), f(node.step)
            if lo is ZERO:
                lo = NONE
            if stp is ONE:
                stp = NONE
            return mk("slice", lo, hi, stp)
        if isinstance(node, ast.Tuple):
            return mk("tuple", *[self.ev_key(e, ctx, st) for e in node.elts])
        if isinstance(node, ast.Index):  # pragma: no cover
            return self.ev_key(node.value, ctx, st)
        return self.esc(ctx, st, self.ev(node, ctx, st))

    e_Slice = lambda self, node, ctx, st: self.ev_key(node, ctx, st)

    # comprehension -------------------------------------------------------
    def comp(self, gens, ctx, st, leaf, depth=0):
        """-> term for the list of leaf values"""
        g = gens[0]
        it = self.iterated(g.iter, ctx, st)
        elems = self.concrete(it, st)
        gated = [(TRUE, e) for e in elems] if elems is not None and len(elems) <= 40 else self.alternatives(it, st) if elems is None else None
        if gated is not None:
            r = mk("list")
            for gate, e in gated:
                self.assign(g.target, e, ctx, st)
                c = and_(gate, *[self.cond(x, ctx, st) for x in g.ifs]) if g.ifs else gate
                if c is FALSE:
                    continue
                if len(gens) > 1:
                    x = self.comp(gens[1:], ctx, st, leaf, depth + 1)
                else:
                    x = mk("list", self.deep(st, leaf(st)))
                r = concat(r, x) if c is TRUE else concat(r, ite(c, x, mk("list")))
            return r
        n, f = self.domain(it, st)
        idx = T.fresh("i")
        self.assign(g.target, f(idx), ctx, st)
        c = and_(*[self.cond(x, ctx, st) for x in g.ifs]) if g.ifs else TRUE
        if len(gens) > 1:
            x = self.comp(gens[1:], ctx, st, leaf, depth + 1)
            return close("flat", [n, ite(c, x, mk("list"))], [idx])
        s2 = st
        if c is not TRUE:
            s2 = st.fork()
            self.assume(s2, c, True)
        v = self.esc(ctx, s2, leaf(s2))
        st.counts = dict(s2.counts)
        return close("fmap", [n, c, v], [idx])

    def _comp(self, node, ctx, st, leaf):
        f = st.frames[ctx.fid]
        saved = dict(f)
        names = set()
        for g in node.generators:
            names |= _targets(g.target)
        r = self.comp(node.generators, ctx, st, leaf)
        f = st.frames[ctx.fid]
        for nm in names:
            if nm in saved:
                f[nm] = saved[nm]
            else:
                f.pop(nm, None)
        return r

    def e_ListComp(self, node, ctx, st):
        return self.ref(st, self._comp(node, ctx, st, lambda s: self.ev(node.elt, ctx, s)))

    def e_GeneratorExp(self, node, ctx, st):
        return self._comp(node, ctx, st, lambda s: self.ev(node.elt, ctx, s))

    def e_SetComp(self, node, ctx, st):
        return op("setof", (self.e_GeneratorExp(node, ctx, st),))

    def e_DictComp(self, node, ctx, st):
        r = self._comp(node, ctx, st,
                       lambda s: mk("tuple", self.evd(node.key, ctx, s), self.evd(node.value, ctx, s)))
        return self.ref(st, self.pairs_to_dict(r))

    def pairs_to_dict(self, r):
        if r.op == "list" and all(x.op == "tuple" and len(x.args) == 2 for x in r.args):
            d = mk("dict")
            for x in r.args:
                d = setitem(d, x.args[0], x.args[1])
            return d
        if r.op in ("map", "fmap"):
            fr, a = O.open_(r)
            if r.op == "map":
                n, body = a
                c = TRUE
            else:
                n, c, body = a
            if body.op == "tuple" and len(body.args) == 2:
                return close("dictmap", [n, c, body.args[0], body.args[1]], fr[:1])
            if body.op == "ite":
                return close("dictmap", [n, c, item(body, ZERO), item(body, ONE)], fr[:1])
        if r.op == "op" and r.args[0] == "items":
            return r.args[1][0]
        if r.op == "op" and r.args[0] == "zipl" and len(r.args[1]) == 2:
            idx = T.fresh("i")
            n, f = self.domain(r, State())
            e = f(idx)
            return close("dictmap", [n, TRUE, item(e, ZERO), item(e, ONE)], [idx])
        return op("dictof", (r,))

    # yield ---------------------------------------------------------------
    def e_Yield(self, node, ctx, st):
        v = self.evd(node.value, ctx, st) if node.value is not None else NONE
        self.event(ctx, st, "yield", v, node)
        return NONE

    def e_YieldFrom(self, node, ctx, st):
        n0 = len(st.events)
        v = self.ev(node.value, ctx, st)
        if v.op == "gen":
            # events already in the list as genyield: promote
            st.events = st.events[:n0] + [
                Event("yield", e.val, e.gate, e.node, e.func, e.nograd) if e.kind == "genyield:%d" % v.args[0] else e
                for e in st.events[n0:]
            ]
        else:
            v = self.deep(st, v)
            n, f = self.domain(v, st)
            self.event(ctx, st, "yield", mk("each", v), node)
        return NONE

    def e_Await(self, node, ctx, st):
        return self.ev(node.value, ctx, st)

    # ------------------------------------------------------------ calls
    def e_Call(self, node, ctx, st):
        return self.eval_call(node, ctx, st)

    def eval_args(self, node, ctx, st):
        args, kw = [], {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, ctx, st)
                c = self.concrete(v, st)
                if c is not None:
                    args.extend(c)
                else:
                    args.append(mk("star", self.deep(st, v)))
            else:
                args.append(self.ev(a, ctx, st))
        for k in node.keywords:
            if k.arg is None:
                v = self.evd(k.value, ctx, st)
                if v.op == "dict" and all(is_str(kk) for kk, _ in v.args):
                    for kk, x in v.args:
                        kw[kk.args[1]] = x
                else:
                    kw["**"] = self.dict_update(kw["**"], v) if "**" in kw else v
            else:
                kw[k.arg] = self.ev(k.value, ctx, st)
        return args, kw

    def eval_call(self, node, ctx, st, stmt=False):
        self.callsites += 1
        fn = node.func
        # method call on an object?
        if isinstance(fn, ast.Attribute):
            dn = deco_name(fn)
            if dn.split(".")[0] in ("logger", "logging") or dn.startswith("warnings."):
                return NONE
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                return self.call_super(node, fn.attr, ctx, st, stmt)
            base = self.ev(fn.value, ctx, st)
            return self.call_method(node, base, fn.attr, ctx, st, stmt)
        if isinstance(fn, ast.Name):
            if fn.id == "super":
                return mk("super", ctx.self or NONE, ctx.cls.qual if ctx.cls else "", ctx.defcls.qual if ctx.defcls else "")
            if fn.id in ("print",):
                return NONE
        f = self.ev(fn, ctx, st)
        args, kw = self.eval_args(node, ctx, st)
        return self.apply(f, args, kw, ctx, st, node, stmt)

    def call_super(self, node, name, ctx, st, stmt=False):
        args, kw = self.eval_args(node, ctx, st)
        if ctx.cls is None:
            return unk("super")
        f = self.ix.find_method(ctx.cls, name, after=ctx.defcls)
        if f is None:
            return mk("meth", "super." + name, tuple(self.esc(ctx, st, a) for a in [ctx.self] + args),
                      tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items()))) if name != "__init__" else NONE
        if f.is_static and f.qual in self.opaque:
            return self.call_func(f, args, kw, ctx, st, node, stmt, selft=None, cls=ctx.cls)
        if f.qual in self.opaque or (f.name in self.opaque and (ctx.func is None or f.name != ctx.func.name)):
            return self.call_func(f, [ctx.self] + args, kw, ctx, st, node, stmt, selft=ctx.self, cls=ctx.cls)
        if f.is_class or f.is_static:
            return self.inline(f, ([ctx.self] if f.is_class else []) + args, kw, st, selft=ctx.self, cls=ctx.cls, caller=ctx)
        return self.inline(f, [ctx.self] + args, kw, st, selft=ctx.self, cls=ctx.cls, caller=ctx)

    def call_method(self, node, base, name, ctx, st, stmt):
        # resolve through heap/class first
        o = base.op
        if o in ("mod", "cls", "super", "rec") or base in self.objcls or ("attr", base, name) in st.heap or (
            o == "ite" and any(l in self.objcls or l.op in ("rec", "cls") for l in O._leaves(base))
        ):
            f = self.getattr(base, name, ctx, st)
            if not (f.op == "attr" and f.args[0] is base):
                args, kw = self.eval_args(node, ctx, st)
                return self.apply(f, args, kw, ctx, st, node, stmt)
        args, kw = self.eval_args(node, ctx, st)
        if base.op == "rec" and name == "_replace":
            d = dict(base.args[1])
            d.update({k: self.deep(st, v) for k, v in kw.items()})
            return mk("rec", base.args[0], tuple((k, d[k]) for k, _ in base.args[1]))
        if base.op == "rec" and name in ("_asdict", "asdict"):
            return self.ref(st, mk("dict", *[(const(k), v) for k, v in base.args[1]]))
        # mutators of local containers
        if base.op == "ref" and base not in self.objcls:
            r = self.container_method(base, name, args, kw, ctx, st)
            if r is not None:
                return r
        elif name == "get" and len(args) == 2 and not kw and base.op in ("attr", "sym", "item", "setitem", "updated") and args[0].op != "const":
            return self.container_read(base, name, args, kw, ctx, st)
        elif name == "pop" and len(args) in (1, 2) and O.namekey(args[0]) and isinstance(node.func.value, ast.Name) and (base.op in MUTABLE or base.op == "op" and base.args[0] == "without"):
            # an entry taken out of a dictionary
            loc = self.ev_loc(node.func.value, ctx, st)
            cur = self.content(loc, st)
            cur = self.deep(st, cur) if cur.op == "ref" else cur
            self.write_content(node.func.value, loc, op("without", (cur, args[0])), ctx, st)
            return item(cur, args[0]) if len(args) == 1 else op("get", (cur, args[0], self.deep(st, args[1])))
        elif stmt and name in MUT and (base.op in MUTABLE and (base.op != "call" or isinstance(node.func.value, ast.Name)) or base.op == "op" and base.args[0] in ("without", "bounded")):
            r = self.opaque_mutator(node.func.value, name, args, kw, ctx, st)
            if r is not None:
                return r
        if name.endswith("_") and not name.endswith("__") and name not in ("requires_grad_", "share_memory_"):
            v = self.libop(name[:-1], [base] + args, kw, ctx, st, method=True)
            if name == "copy_":
                v = self.deep(st, args[0])
            elif name == "fill_":
                v = op("full_like", (self.deep(st, base), self.deep(st, args[0])))
            elif name == "zero_":
                v = op("full_like", (self.deep(st, base), ZERO))
            if v is not None and v.op != "meth":
                tgt = node.func.value
                while isinstance(tgt, ast.Call) and isinstance(tgt.func, ast.Attribute) and tgt.func.attr.endswith("_") and not tgt.func.attr.endswith("__"):
                    tgt = tgt.func.value  # x.mul_(a).add_(b) goes on writing x
                if isinstance(tgt, ast.Attribute) and tgt.attr == "data" and self.ev(tgt.value, ctx, st) is self.ev(tgt, ctx, st):
                    tgt = tgt.value
                loc = base
                if isinstance(tgt, (ast.Name, ast.Attribute, ast.Subscript)):
                    loc = self.ev_loc(tgt, ctx, st)
                    w = self.deep(st, loc)
                    last = st.events[-1] if st.events else None
                    if last is not None and last.kind == "inplace" and last.val.args[1] is const("write") and last.val.args[0] is w and last.gate is self.gate(st):
                        st.events.pop()  # what was written a moment ago is written over
                    self.event(ctx, st, "inplace", mk("tuple", w, const("write"), self.deep(st, v)), node)
                    self.write_content(tgt, loc, v, ctx, st)
                return v
        if self.modes and name in ("train", "eval") and tailname(base) in self.modes:
            on = FALSE if name == "eval" else args[0] if args else kw.get("mode", TRUE)
            st.heap[("attr", base, "training")] = on
            return base
        d = self.deep(st, base)
        if name == "format" and _stringy(d):
            return fmt_format(d, [self.deep(st, a) for a in args], {k: self.deep(st, v) for k, v in kw.items()})
        if d.op in REFKINDS or d.op == "updated" or d.op == "setitem":
            r = self.container_read(d, name, args, kw, ctx, st)
            if r is not None:
                return r
        if name in ("keys", "items", "values") and not args:
            return self.container_read(d, name, args, kw, ctx, st)
        own = self.objcls.get(base)  # an attribute of an own object may be called like a tensor operation
        r = self.libop(name, [base] + args, kw, ctx, st, method=True, stmt=stmt) if own is None or self.ix.is_record(own) else None
        if r is not None:
            return r
        if name in ("register_buffer", "register_parameter", "add_module", "register_module") and len(args) > 1 and is_str(args[0]):
            st.heap[("attr", base, args[0].args[1])] = args[1]
            return NONE
        eb = self.esc(ctx, st, base)
        t = mk("call", eb if name in ("forward", "__call__") else mk("attr", eb, name), tuple(self.esc(ctx, st, a) for a in args),
               tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items())))
        return self.opaque_result(t, name, ctx, st, node, stmt)

    def opaque_result(self, t, name, ctx, st, node, stmt):
        if name in IMPURE and not (name == "next" and node is not None and node.args and isinstance(node.args[0], ast.Call) and deco_name(node.args[0].func) == "iter"):
            k = st.counts.get(t, 0)
            st.counts[t] = k + 1
            if k:
                t = mk("nth", t, k)
        if self.modes and t.op == "call":
            self.note_mode(t, ctx, st, node)
        if name in self.mutators:
            st.heap[EPOCH] = t
        if stmt:
            self.event(ctx, st, "call", t, node)
        elif name in self.watch or name in ("step", "reset", "act", "add_observer", "notify_observers", "train", "eval"):
            self.event(ctx, st, "call", t, node)
        if st.nograd:
            return O.detach(t)
        return t

    def note_mode(self, t, ctx, st, node):
        """the networks an opaque call consults, with their training flags at that moment"""
        nets, f = [], t.args[0]
        if self.modes.get(tailname(f)) is False:  # switches the modes itself
            return
        for c in [f] + ([f.args[0]] if f.op == "attr" else []) + list(t.args[1]) + [v for _, v in t.args[2]]:
            if isinstance(c, Term) and tailname(c) in self.modes:
                path = self.modes[tailname(c)]
                if path is not None:
                    c = (c.args[0] if c.op == "attr" else dict(t.args[2]).get("self") or (t.args[1] or (c,))[0]) if path[0] == "." else ctx.self
                    for n in path.strip(".").split("."):
                        c = self.getattr(c, n, ctx, st)
                nets.append(c)
        for c in nets:
            self.event(ctx, st, "mode", mk("modecall", c, self.deep(st, self.getattr(c, "training", ctx, st))), node)

    def container_method(self, base, name, args, kw, ctx, st):
        raw = st.heap.get(base)
        if raw is None:
            return None
        dv = [self.deep(st, a) for a in args]
        if name == "append" and len(args) == 1:
            if raw.op == "list":
                st.heap[base] = mk("list", *(raw.args + (args[0],)))
            else:
                st.heap[base] = concat(self.deep(st, raw), mk("list", dv[0]))
            return NONE
        if name == "extend" and len(args) == 1:
            x = dv[0]
            c = self.concrete(x, st)
            if c is not None:
                x = mk("list", *c)
            st.heap[base] = concat(self.deep(st, raw), x)
            return NONE
        if name == "insert" and len(args) == 2 and args[0] is ZERO:
            st.heap[base] = concat(mk("list", dv[1]), self.deep(st, raw))
            return NONE
        if name == "update" and raw.op in ("dict", "updated", "setitem", "dictmap"):
            x = dv[0] if args else mk("dict", *[(const(k), self.deep(st, v)) for k, v in kw.items()])
            if x.op in ("list", "map", "fmap"):
                x = self.pairs_to_dict(x)
            st.heap[base] = self.dict_update(self.deep(st, raw), x)
            return NONE
        if name in ("add",) and len(args) == 1:
            d = self.deep(st, raw)
            st.heap[base] = mk("set", *sorted(set(d.args) | {dv[0]}, key=lambda t: t.dig)) if d.op == "set" else op("setadd", (d, dv[0]))
            return NONE
        if name == "clear":
            st.heap[base] = mk(raw.op if raw.op in ("list", "dict", "set") else "list")
            return NONE
        if name == "pop":
            d = self.deep(st, raw)
            k = dv[0] if dv else const(-1)
            r = item(d, k)
            st.heap[base] = O.delitem(d, k)
            return r
        if name in ("sort", "reverse") and not args:
            d = self.deep(st, raw)
            st.heap[base] = op("sorted", (d,), {k: self.esc(ctx, st, v) for k, v in kw.items()}) if name == "sort" else op("reversed", (d,))
            return NONE
        if name == "setdefault":
            d = self.deep(st, raw)
            dflt = dv[1] if len(dv) > 1 else NONE
            r = ite(cmp("in", dv[0], d), item(d, dv[0]), dflt)
            st.heap[base] = ite(cmp("in", dv[0], d), d, setitem(d, dv[0], dflt))
            return r
        if name in ("remove", "discard"):
            st.heap[base] = op("removed", (self.deep(st, raw), dv[0]))
            return NONE
        return self.container_read(self.deep(st, raw), name, args, kw, ctx, st)

    def container_read(self, d, name, args, kw, ctx, st):
        dv = [self.deep(st, a) for a in args]
        if name == "items" and not args:
            return op("items", (d,))
        if name == "keys" and not args:
            return op("keys", (d,))
        if name == "values" and not args:
            return op("values_of", (d,))
        if name == "get" and d.op == "dict":
            dflt = dv[1] if len(dv) > 1 else NONE
            if dv[0].op in ("const", "enum") and all(k.op in ("const", "enum") for k, _ in d.args):
                for k, v in d.args:
                    if k is dv[0]:
                        return v
                return dflt
        if name == "copy" and not args:
            return self.ref(st, d)
        if name == "index" and d.op in ("list", "tuple") and len(dv) == 1 and dv[0] in d.args and all(x.op in ("const", "enum") for x in d.args):
            return const(d.args.index(dv[0]))
        if name == "get":
            dflt = dv[1] if len(dv) > 1 else NONE
            return ite(cmp("in", dv[0], d), item(d, dv[0]), dflt)
        return None

    def opaque_mutator(self, tnode, name, args, kw, ctx, st):
        loc = self.ev_loc(tnode, ctx, st)
        cur = self.content(loc, st)
        if cur.op == "ref":
            cur = self.deep(st, cur)
        dv = [self.deep(st, a) for a in args]
        if name == "append" and len(dv) == 1:
            v = concat(cur, mk("list", dv[0]))
        elif name == "extend":
            v = concat(cur, dv[0])
        elif name == "update" and len(dv) == 1:
            v = self.dict_update(cur, dv[0])
        elif name == "add" and len(dv) == 1:
            return None
        elif name == "clear":
            v = op("cleared", (cur,))
        elif name == "insert" and len(dv) == 2 and dv[0] is ZERO:
            v = concat(mk("list", dv[1]), cur)
        else:
            return None
        self.write_content(tnode, loc, v, ctx, st)
        return NONE

    # application -----------------------------------------------------------
    def apply(self, f, args, kw, ctx, st, node, stmt=False):
        o = f.op
        if o == "bound":
            selft, qual, clsq = f.args
            fn = self.ix.get(qual)
            cls = self.ix.get(clsq)
            if fn is None:
                fn = self.find_setter(qual)
            return self.call_func(fn, [selft] + args, kw, ctx, st, node, stmt, selft=selft, cls=cls)
        if o == "func":
            fn = self.ix.get(f.args[0])
            return self.call_func(fn, args, kw, ctx, st, node, stmt, selft=None, cls=fn.cls)
        if o == "closure":
            return self.call_closure(f, args, kw, st, ctx)
        if o == "cls":
            return self.construct(f, args, kw, ctx, st, node, stmt)
        if o == "mod":
            return self.call_external(f.args[0], args, kw, ctx, st, node, stmt)
        if o == "ite":
            g = self.simp(st, f)
            if g.op != "ite":
                return self.apply(g, args, kw, ctx, st, node, stmt)
            f = g
            leaves = O._leaves(f)
            if all(l.op in ("closure", "func", "bound", "cls", "mod", "partial", "new", "attr") or l is NONE for l in leaves) and any(
                    l.op != "attr" for l in leaves):
                a, b = st.fork(), st.fork()
                c = f.args[0]
                a.path += (c,)
                b.path += (not_(c),)
                self.assume(a, c, True)
                self.assume(b, c, False)
                va = self.apply(f.args[1], args, kw, ctx, a, node, stmt)
                vb = self.apply(f.args[2], args, kw, ctx, b, node, stmt)
                m = self.merge(c, a, b, st)
                r = self.mergeval(c, va, vb, a, b)
                self.become(st, m)
                return r
        if o == "partial":
            pargs, pkw = f.args[1], dict(f.args[2])
            pkw.update(kw)
            return self.apply(f.args[0], list(pargs) + args, pkw, ctx, st, node, stmt)
        if o == "extmeth":
            nm = f.args[0].args[1]
            if nm == "register_buffer":
                if len(args) > 1 and is_str(args[0]):
                    st.heap[("attr", f.args[1], args[0].args[1])] = args[1]
                return NONE
            t = mk("meth", nm, tuple(self.esc(ctx, st, a) for a in [f.args[1]] + args),
                   tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items())))
            return self.opaque_result(t, nm, ctx, st, node, stmt)
        if o == "new" and f.args[0].startswith("torch.nn."):
            nm = f.args[0].split(".")[-1]
            m = {"Softmax": "softmax", "LogSoftmax": "log_softmax", "ReLU": "relu", "Tanh": "tanh", "Sigmoid": "sigmoid",
                 "MSELoss": "mse_loss", "CrossEntropyLoss": "cross_entropy", "SmoothL1Loss": "smooth_l1_loss",
                 "BCELoss": "binary_cross_entropy", "BCEWithLogitsLoss": "binary_cross_entropy_with_logits",
                 "KLDivLoss": "kl_div"}.get(nm)
            if m:
                k2 = dict(f.args[2])
                pos = list(f.args[1])
                if pos and m in ("softmax", "log_softmax"):
                    k2["dim"] = pos[0]
                r = self.libop(m, args, {**k2, **kw}, ctx, st)
                if r is not None:
                    return r
        # opaque callee
        fd = self.esc(ctx, st, f)
        t = mk("call", fd, tuple(self.esc(ctx, st, a) for a in args),
               tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items())))
        nm = fd.args[1] if fd.op == "attr" else ""
        return self.opaque_result(t, nm, ctx, st, node, stmt)

    def find_setter(self, qual):
        cq, nm = qual.rsplit(".", 1)
        c = self.ix.get(cq)
        return c.setters.get(nm)

    def call_func(self, fn, args, kw, ctx, st, node, stmt, selft, cls):
        if fn.is_class and (not args or args[0].op != "cls"):
            pass
        if self.should_inline(fn, ctx):
            if fn.is_gen and not fn.has("contextmanager"):
                return self.call_gen(fn, args, kw, ctx, st, selft, cls)
            r = self.inline(fn, args, kw, st, selft=selft, cls=cls, caller=ctx)
            self.changed_arguments(fn, args, node, ctx, st)
            return r
        # opaque, with arguments normalised through the signature
        names, dflt = self.bindable(fn, args, kw)
        if names is not None:
            t = mk("call", mk("func", fn.qual), (), self.given(fn, names, ctx, st))
        else:
            t = mk("call", mk("func", fn.qual), tuple(self.esc(ctx, st, x) for x in args),
                   tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items())))
        return self.opaque_result(t, fn.name, ctx, st, node, stmt)

    def changed_arguments(self, fn, args, node, ctx, st):
        """what the callee stored into the objects it was given is seen through the caller's names"""
        first, final = self.last_frame.pop(fn.qual, (None, None))
        if final is None or not isinstance(node, ast.Call) or any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
            return
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        off = len(args) - len(node.args)
        if off not in (0, 1) or len(args) > len(names):
            return
        given = [(names[i + off], e) for i, e in enumerate(node.args)] + [(k.arg, k.value) for k in node.keywords]
        for n, e in given:
            if not isinstance(e, (ast.Name, ast.Attribute)) or n not in final or n not in first or n in fn.rebinds:
                continue
            new, v = final[n], first[n]
            if new is v or v.op == "ref" or new.op not in ("setitem", "updated", "concat", "fold", "ite", "op", "item"):
                continue
            self.write_content(e, self.ev_loc(e, ctx, st), new, ctx, st)

    def bindable(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if any(x.op == "star" for x in args) or "**" in kw or a.vararg or a.kwarg or len(args) > len(names):
            return None, None
        d = dict(zip(names, args))
        d.update(kw)
        return d, None

    def given(self, fn, d, ctx, st):
        """keyword arguments, without those equal to their default"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dfl.update((x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None)
        out = {}
        for k, v in d.items():
            v = self.esc(ctx, st, v)
            if k in dfl and isinstance(dfl[k], ast.Constant) and const(dfl[k].value) is v:
                continue
            out[k] = v
        return tuple(sorted(out.items()))

    def should_inline(self, fn, ctx):
        if fn.qual in self.opaque or fn.name in self.opaque:
            return False
        if fn.module.name.startswith(self.noinline_mods) and self.noinline_mods:
            return False
        if self.stack.count(fn.qual) >= 2 or len(self.stack) > self.MAXDEPTH:
            return False
        if fn.has("abstractmethod") or _unimplemented(fn.node):
            return False
        return True

    def inline(self, fn, args, kw, st, selft=None, cls=None, caller=None):
        """evaluate the body of fn on st; returns its value"""
        fid = next(self.nframe)
        frame = self.bind(fn.node.args, fn.module, args, kw, st, fn)
        first = dict(frame)
        st.frames[fid] = frame
        ctx = Ctx(fn, fn.module, cls, selft if selft is not None else (args[0] if args and fn.cls else None), fid,
                  fn.cls or (self.specdef if fn.qual.startswith("specs.") else None), 0)
        if fn.is_class and args:
            ctx.self = args[0]
            if args[0].op == "cls":
                ctx.cls = self.ix.get(args[0].args[0])
        self.evaluated[fn.qual] = fn
        self.stack.append(fn.qual)
        ng = 1 if fn.nograd else 0
        st.nograd += ng
        try:
            r = self.run_body(fn.node.body, ctx, st)
        finally:
            self.stack.pop()
        st.nograd -= ng
        self.last_frame[fn.qual] = first, st.frames.get(fid)
        st.frames.pop(fid, None) if not self.captured(fid) else None
        if ng:
            r = O.detach(r) if r.op != "ref" else r
            if r.op == "ref":
                c = self.deep(st, r)
                st.heap[r] = O.detach(c)
        return r

    def captured(self, fid):
        return any(c[1].fid == fid for c in self.closures.values())

    def run_body(self, body, ctx, st):
        base = st.fork()
        live, done = self.block(body, ctx, st)
        rets = [d for d in done if d.kind == "ret"]
        raises = [d for d in done if d.kind == "raise"]
        n0 = len(base.path)
        # value
        cur_st, cur_v = live, NONE
        allst = ([live] if live is not None else []) + [d.st for d in rets]
        if not allst:
            # always raises
            if raises:
                ev = raises[-1].st.events
                self.become_full(st, raises[-1].st, base)
                st.events = _union_events(base.events, *[d.st.events for d in raises])
                return mk("raised", raises[-1].val)
            return NONE
        order = list(reversed(rets))
        if cur_st is None:
            d = order.pop(0)
            cur_st, cur_v = d.st, d.val
        for d in order:
            c = and_(*d.st.path[n0:])
            # 'cur' is only relevant when c is false
            m = self.merge(c, _repath(d.st, base, c), _repath(cur_st, base, not_(c)), base)
            cur_v = self.mergeval(c, d.val, cur_v, d.st, cur_st)
            cur_st = m
        evs = _union_events(base.events, *([d.st.events for d in rets] + [d.st.events for d in raises] + ([live.events] if live is not None else [])))
        self.become_full(st, cur_st, base)
        st.events = evs
        return cur_v

    def become_full(self, st, m, base):
        st.frames = m.frames
        st.heap = m.heap
        st.counts = m.counts
        st.path = base.path
        # facts established unconditionally on the only surviving path are kept
        st.facts = {k: v for k, v in m.facts.items()} if m.path == base.path else dict(base.facts)

    def call_gen(self, fn, args, kw, ctx, st, selft, cls):
        n0 = len(st.events)
        gid = next(self.nframe)
        self.inline(fn, args, kw, st, selft=selft, cls=cls, caller=ctx)
        st.events = st.events[:n0] + [
            Event("genyield:%d" % gid, e.val, e.gate, e.node, e.func, e.nograd) if e.kind == "yield" else e
            for e in st.events[n0:]
        ]
        return mk("gen", gid)

    def gen_list(self, st, g):
        pre = self.gate(st)
        out = mk("list")
        for e in st.events:
            if e.kind == "genyield:%d" % g.args[0]:
                gt = _residual(e.gate, st.path)
                x = e.val.args[0] if e.val.op == "each" else mk("list", e.val)
                out = concat(out, x if gt is TRUE else ite(gt, x, mk("list")))
        return out

    def call_closure(self, f, args, kw, st, caller=None):
        node, cctx = self.closures[f.args[0]]
        fid = next(self.nframe)
        frame = self.bind(node.args, cctx.module, args, kw, st, None, cctx)
        frame["__parent__"] = cctx.fid
        st.frames[fid] = frame
        ctx = Ctx(cctx.func, cctx.module, cctx.cls, cctx.self, fid, cctx.defcls, 0)
        if self.stack.count("closure%s" % (f.args[0],)) >= 2:
            return unk("rec-closure")
        self.stack.append("closure%s" % (f.args[0],))
        ng = 1 if any("no_grad" in ast.unparse(d) for d in getattr(node, "decorator_list", ())) else 0
        st.nograd += ng
        try:
            if isinstance(node, ast.Lambda):
                r = self.ev(node.body, ctx, st)
            else:
                r = self.run_body(node.body, ctx, st)
                for nm in {nm for x in ast.walk(node) if isinstance(x, ast.Nonlocal) for nm in x.names}:
                    fn = cctx.fid
                    while fn is not None and nm not in st.frames.get(fn, {}):
                        fn = st.frames.get(fn, {}).get("__parent__")
                    if fn is not None and nm in st.frames[fid]:
                        st.frames[fn][nm] = st.frames[fid][nm]
        finally:
            self.stack.pop()
        st.nograd -= ng
        if ng:
            if r.op == "ref":
                st.heap[r] = O.detach(self.deep(st, r))
            else:
                r = O.detach(r)
        return r

    def bind(self, a, module, args, kw, st, fn, cctx=None):
        frame = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        kw = dict(kw)
        rest = []
        star = None
        for i, v in enumerate(args):
            if v.op == "star":
                star = (v, i)
                break
            if i < len(names):
                frame[names[i]] = v
            else:
                rest.append(v)
        if star is not None:
            for j in range(star[1], len(names)):
                if names[j] not in kw:
                    frame[names[j]] = item(star[0].args[0], const(j - star[1]))
        if a.vararg:
            if star is None:
                frame[a.vararg.arg] = mk("tuple", *rest)
            elif star[1] < len(names):
                one = star[1] == len(args) - 1
                frame[a.vararg.arg] = item(star[0].args[0], mk("slice", const(len(names) - star[1]), NONE, NONE)) if one else unk("star-args")
            else:
                v = self._starlist(list(args[len(names):]))
                if v.op == "concat" and v.args[0].op == "list" and not v.args[0].args:
                    v = mk("concat", *v.args[1:]) if len(v.args) > 2 else v.args[1]
                frame[a.vararg.arg] = v
        extra = {}
        dstar = kw.pop("**", None)
        for k, v in kw.items():
            if k in names or k in kwonly:
                frame[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d = mk("dict", *[(const(k), v) for k, v in extra.items()])
            if dstar is not None:
                d = self.dict_update(dstar, d)
            frame[a.kwarg.arg] = self.ref(st, d)
        # defaults
        dn = names[len(names) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in frame:
                if dstar is not None:
                    frame[n] = item(dstar, const(n))
                else:
                    frame[n] = self.default(d, module, n)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in frame and d is not None:
                frame[n] = self.default(d, module, n) if dstar is None else item(dstar, const(n))
        for n in names + kwonly:
            if n not in frame:
                frame[n] = item(dstar, const(n)) if dstar is not None else unk("missing-arg", const(n))
        return frame

    def default(self, d, module, n):
        st = State()
        if isinstance(d, ast.Call) and deco_name(d).split(".")[-1] == "field":
            for k in d.keywords:
                if k.arg == "default":
                    return self.default(k.value, module, n)
                if k.arg == "default_factory":
                    v = self.ev(k.value, self.modctx(module, st), st)
                    ctx = self.modctx(module, st)
                    return self.deep(st, self.apply(v, [], {}, ctx, st, d))
            return unk("field", const(n))
        return self.deep(st, self.ev(d, self.modctx(module, st), st))

    # construction ------------------------------------------------------------
    def construct(self, f, args, kw, ctx, st, node, stmt=False):
        c = self.ix.get(f.args[0])
        if self.ix.is_enum(c):
            return mk("call", f, tuple(self.deep(st, a) for a in args), ())
        if self.ix.is_record(c) and self.ix.find_method(c, "__init__") is None and c.qual not in self.opaque:
            fl = self.ix.record_fields(c)
            vals = {}
            if any(a.op == "star" for a in args) or "**" in kw:
                t = mk("new", f.args[0], tuple(self.esc(ctx, st, a) for a in args),
                       tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items())))
                if not args and "**" in kw:
                    src = self.deep(st, kw["**"])
                    for n, d, m in fl:
                        if n in kw:
                            vals[n] = self.deep(st, kw[n])
                        else:
                            vals[n] = item(src, const(n))
                    return mk("rec", c.qual, tuple((n, vals[n]) for n, _, _ in fl))
                return t
            for (n, _, _), v in zip(fl, args):
                vals[n] = self.deep(st, v)
            for k, v in kw.items():
                vals[k] = self.esc(ctx, st, v)
            for n, d, m in fl:
                if n not in vals:
                    vals[n] = self.default(d, m, n) if d is not None else unk("missing-field", const(n))
            return mk("rec", c.qual, tuple((n, vals[n]) for n, _, _ in fl))
        init = self.ix.find_method(c, "__init__")
        if c.qual in self.inline_new or c.name in self.inline_new:
            obj = mk("ref", next(self.nref))
            st.heap[obj] = mk("new", c.qual, (), ())
            self.objcls[obj] = c
            if init is not None:
                self.inline(init, [obj] + args, kw, st, selft=obj, cls=c, caller=ctx)
            return obj
        if init is not None:
            d, _ = self.bindable(init, [NONE] + args, kw)
            if d is not None:
                d.pop("self", None)
                return mk("new", c.qual, (), self.given(init, d, ctx, st))
        return mk("new", c.qual, tuple(self.esc(ctx, st, a) for a in args),
                  tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items())))

    # externals --------------------------------------------------------------
    def call_external(self, dotted, args, kw, ctx, st, node, stmt=False):
        if dotted in ("six.iteritems", "six.iterkeys", "six.itervalues") and len(args) == 1:
            return self.container_read(self.deep(st, args[0]), dotted[8:], [], {}, ctx, st)
        root = dotted.split(".")[0]
        name = dotted.split(".")[-1]
        if dotted.startswith("logging"):
            return NONE
        if dotted in ("numpy.random.shuffle", "random.shuffle") and len(args) == 1 and args[0].op == "ref" and args[0] in st.heap:
            d = self.deep(st, args[0])
            self.event(ctx, st, "call", mk("call", mk("mod", dotted), (d,), ()), node)
            st.heap[args[0]] = op("shuffled", (d,))
            return NONE
        if root == "builtins":
            r = self.builtin(name, args, kw, ctx, st, node)
            if r is not None:
                return r
        if dotted in ("typing.cast",) and len(args) == 2:
            return args[1]
        if dotted in ("torch.nn.Parameter", "torch.nn.parameter.Parameter") and args and kw.get("requires_grad") is FALSE:
            return args[0]
        if dotted in ("copy.copy", "copy.deepcopy"):
            d = self.deep(st, args[0])
            r = op("copyof", (d,)) if d.op not in REFKINDS and d.op != "rec" else d
            return self.ref(st, r) if r.op in REFKINDS else r
        if dotted in ("functools.partial",):
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if dotted == "dataclasses.replace":
            d = self.deep(st, args[0])
            if d.op == "rec":
                dd = dict(d.args[1])
                dd.update({k: self.deep(st, v) for k, v in kw.items()})
                return mk("rec", d.args[0], tuple((k, dd[k]) for k, _ in d.args[1]))
            return mk("replaced", d, tuple(sorted((k, self.deep(st, v)) for k, v in kw.items())))
        if dotted in ("collections.OrderedDict", "collections.defaultdict", "collections.deque"):
            if name == "defaultdict":
                args = args[1:]
            if name == "deque":
                limit = self.deep(st, kw.get("maxlen", args[1] if len(args) > 1 else NONE))
                if limit is not NONE:
                    return op("bounded", (self.deep(st, args[0]) if args else mk("list"), limit))
            if not args:
                return self.ref(st, mk("dict" if name != "deque" else "list"))
            d = self.deep(st, args[0])
            if name == "deque":
                return self.ref(st, d)
            return self.ref(st, d if d.op in ("dict", "dictmap") else self.pairs_to_dict(d))
        if dotted == "itertools.chain" and not kw:
            r = mk("list")
            for a in args:
                r = concat(r, self.aslist(self.deep(st, a), st))
            return r
        if dotted.startswith("torch.nn.") and name[:1].isupper() and not dotted.startswith("torch.nn.functional"):
            return mk("new", dotted, tuple(self.esc(ctx, st, a) for a in args),
                      tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items())))
        if dotted == "torch.no_grad":
            return NONE
        if root in ("torch", "numpy", "math", "scipy"):
            r = self.libop(name, args, kw, ctx, st, dotted=dotted, stmt=stmt)
            if r is not None:
                return r
        args = [self.func_lam(ctx, st, a) if a.op == "func" and root == "scipy" else a for a in args]
        t = mk("call", mk("mod", dotted), tuple(self.esc(ctx, st, a) for a in args),
               tuple(sorted((k, self.esc(ctx, st, v)) for k, v in kw.items() if k not in ("dtype", "device"))))
        return self.opaque_result(t, name, ctx, st, node, stmt)

    def aslist(self, t, st):
        c = self.concrete(t, st)
        if c is not None:
            return mk("list", *c)
        return t

    def builtin(self, name, args, kw, ctx, st, node):
        d = [self.deep(st, a) for a in args]
        d = [self.gen_list(st, x) if x.op == "gen" else x for x in d]
        n = len(d)
        if name == "len" and n == 1:
            if args[0] in self.objcls or args[0].op == "rec":
                f = self.getattr(args[0], "__len__", ctx, st)
                if f.op == "bound" and f.args[1] not in self.opaque:
                    return self.deep(st, self.apply(f, [], {}, ctx, st, node, False))
            return length(d[0])
        if name in ("list", "tuple"):
            if not d:
                return self.ref(st, mk("list")) if name == "list" else mk("tuple")
            if d[0] in self.dictsyms:
                d = [op("keys", (d[0],))]
            c = self.concrete(d[0], st)
            if c is not None:
                r = mk(name, *c)
            elif d[0].op in ("map", "fmap", "flat", "concat"):
                r = d[0]
            elif d[0].op == "op" and d[0].args[0] in ("zipl", "items", "range", "enumerate", "keys", "values_of"):
                nn, f = self.domain(d[0], st)
                idx = T.fresh("i")
                r = close("map", [nn, f(idx)], [idx])
            else:
                r = d[0]
            return self.ref(st, r) if name == "list" else r
        if name == "dict":
            if not d:
                return self.ref(st, mk("dict", *[(const(k), self.esc(ctx, st, v)) for k, v in kw.items()]))
            x = d[0]
            if x.op not in ("dict", "dictmap", "updated"):
                x = self.pairs_to_dict(x)
            for k, v in kw.items():
                x = setitem(x, const(k), self.deep(st, v))
            return self.ref(st, x)
        if name == "set":
            if not d:
                return self.ref(st, mk("set"))
            c = self.concrete(d[0], st)
            if c is not None:
                return self.ref(st, mk("set", *sorted(set(c), key=lambda t: t.dig)))
            return op("setof", (d[0],))
        if name == "range":
            a = {1: [ZERO, d[0] if d else ZERO, ONE], 2: d + [ONE], 3: d}.get(n)
            return op("range", tuple(a))
        if name == "zip":
            if any(x.op == "star" for x in d):
                return op("zipstar", tuple(d))
            return op("zipl", tuple(d))
        if name == "enumerate":
            c = self.concrete(d[0], st)
            start = d[1] if n > 1 else kw.get("start", ZERO)
            if c is not None and is_num(start):
                return mk("list", *[mk("tuple", add(start, const(i)), x) for i, x in enumerate(c)])
            return op("enumerate", (d[0],) if start is ZERO else (d[0], start))
        if name == "next" and len(d) == 1 and not kw and d[0].op == "op" and d[0].args[0] in ("values_of", "items", "keys") and (
                isinstance(node.args[0], ast.Call) and deco_name(node.args[0].func) == "iter"):
            return item(d[0], ZERO)
        if name == "reversed":
            return op("reversed", (d[0],))
        if name == "sorted":
            k2 = {k: self.esc(ctx, st, v) for k, v in kw.items()}
            if d[0].op == "op" and d[0].args[0] in ("keys", "listof"):
                d[0] = d[0].args[1][0]
            if d[0].op == "map":
                for x in T.subterms(d[0]):
                    if x.op == "keyat":
                        i = T.fresh("i")
                        if close("map", [length(x.args[0]), mk("keyat", x.args[0], i)], [i]) is d[0]:
                            d[0] = x.args[0]
                            break
            return op("sorted", (d[0],), k2)
        if name == "slice" and 1 <= len(d) <= 3 and not kw:
            lo, hi, stp = (NONE, d[0], NONE) if len(d) == 1 else tuple(d) + (NONE,) * (3 - len(d))
            return mk("slice", NONE if lo is ZERO else lo, hi, NONE if stp is ONE else stp)
        if name == "isinstance":
            return mk("isinst", d[0], d[1]) if not (d[0].op == "rec" and d[1].op == "cls") else const(
                self.ix.get(d[1].args[0]) in self.ix.mro(self.ix.get(d[0].args[0])))
        if name == "issubclass":
            return mk("isinst", mk("typeof", d[0]), d[1])
        if name == "hasattr":
            if d[0] in self.objcls and is_str(d[1]) and ("attr", d[0], d[1].args[1]) in st.heap:
                return TRUE
            return mk("hasattr", d[0], d[1])
        if name == "getattr" and n >= 2:
            if is_str(d[1]):
                if n == 2:
                    return self.getattr(args[0], d[1].args[1], ctx, st)
                v = self.getattr(args[0], d[1].args[1], ctx, st)
                if d[0].op == "rec" or d[0] in self.objcls and v.op != "attr":
                    return v
                return ite(mk("hasattr", d[0], d[1]), v, d[2])
            return mk("dynattr", d[0], d[1])
        if name == "setattr" and n == 3:
            if is_str(d[1]):
                self.store_attr(None, args[0], d[1].args[1], args[2], ctx, st, node)
            else:
                self.event(ctx, st, "store", mk("tuple", d[0], d[1], d[2]), node)
            return NONE
        if name in ("float",) and n == 1:
            if is_str(d[0]) and d[0].args[1] in ("inf", "-inf"):
                return const(float(d[0].args[1]))
            return d[0]
        if name == "bool" and n == 1:
            return truthy(d[0])
        if name == "int" and n == 1:
            if is_num(d[0]):
                return const(int(d[0].args[1]))
            return op("int", (d[0],)) if d[0].op not in ("len", "cmp", "not", "and", "or") else d[0]
        if name == "str" and n == 1:
            return d[0] if _stringy(d[0]) else op("str", (d[0],))
        if name == "abs":
            return op("abs", (d[0],))
        if name == "round":
            return op("round", tuple(d))
        if name in ("max", "min"):
            nm = "maximum" if name == "max" else "minimum"
            if n >= 2:
                return op(nm, tuple(d), {k: self.esc(ctx, st, v) for k, v in kw.items()})
            x = d[0]
            if x.op in ("list", "tuple") and x.args and not kw:
                return op(nm, x.args)
            return op(name + "of", (x,), {k: self.esc(ctx, st, v) for k, v in kw.items()})
        if name == "sum":
            x = d[0]
            start = d[1] if n > 1 else kw.get("start", ZERO)
            if x.op in ("list", "tuple"):
                if all(_listy(y) for y in x.args) and x.args:
                    r = self.deep(st, start)
                    for y in x.args:
                        r = concat(r, y)
                    return r
                return add(start, *x.args)
            if x.op in ("map", "fmap"):
                fr, a = O.open_(x)
                if x.op == "map":
                    return add(start, close("sum", a, fr[:1]))
                nn, c, body = a
                return add(start, close("sum", [nn, ite(c, body, ZERO)], fr[:1]))
            nn, f = self.domain(x, st)
            idx = T.fresh("i")
            return add(start, close("sum", [nn, f(idx)], [idx]))
        if name in ("any", "all"):
            x = d[0]
            if x.op in ("list", "tuple"):
                return (or_ if name == "any" else and_)(*[truthy(y) for y in x.args])
            if x.op in ("map", "fmap"):
                fr, a = O.open_(x)
                if x.op == "map":
                    nn, body = a
                    b = truthy(body)
                else:
                    nn, c, body = a
                    b = and_(c, truthy(body)) if name == "any" else or_(not_(c), truthy(body))
                return close(name, [nn, b], fr[:1])
            nn, f = self.domain(x, st)
            idx = T.fresh("i")
            return close(name, [nn, truthy(f(idx))], [idx])
        if name in ("map",) and n >= 2:
            zs = d[1] if n == 2 else op("zipl", tuple(d[1:]))
            nn, f = self.domain(zs, st)
            idx = T.fresh("i")
            e = f(idx)
            vals = [e] if n == 2 else [item(e, const(j)) for j in range(n - 1)]
            v = self.apply(args[0], vals, {}, ctx, st, node)
            return close("map", [nn, self.deep(st, v)], [idx])
        if name == "filter" and n == 2:
            nn, f = self.domain(d[1], st)
            idx = T.fresh("i")
            e = f(idx)
            c = truthy(e) if d[0] is NONE else truthy(self.deep(st, self.apply(args[0], [e], {}, ctx, st, node)))
            return close("fmap", [nn, c, e], [idx])
        if name == "iter" and n == 1:
            return d[0]
        if name == "type" and n == 1:
            return mk("typeof", d[0])
        if name == "id":
            return op("id", (d[0],))
        if name == "super":
            return mk("super", ctx.self or NONE, ctx.cls.qual if ctx.cls else "", ctx.defcls.qual if ctx.defcls else "")
        if name == "pow":
            return O.pow_(d[0], d[1])
        if name == "object":
            return mk("new", "object", (), ())
        if name == "print":
            return NONE
        if name in ("Exception", "RuntimeError", "ValueError", "AssertionError", "KeyError", "NotImplementedError",
                    "TypeError", "AttributeError"):
            return mk("exc_obj", const(name))
        return None

    def libop(self, name, args, kw, ctx, st, method=False, dotted=None, stmt=False):
        """known tensor / array / math functions and methods -> normalised op, or None"""
        a = [self.deep(st, x) for x in args]
        k = {KW(x): self.deep(st, v) for x, v in kw.items() if x not in O.DROPKW}
        if any(x.op == "star" for x in a) or "**" in k:
            return None
        orig = name
        name = O.ALIAS.get(name, name)
        if name in O.TRANSPARENT and a and (method or name in ("as_tensor", "from_numpy", "asarray")):
            if method and name in ("copy", "clone") and False:
                pass
            if not method or len(a) >= 1:
                return a[0]
        if name == "detach" and len(a) == 1:
            return O.detach(a[0])
        n = len(a)
        if name in O.UNARY and n == 1:
            return op(name, (a[0],))
        if name == "dot" and dotted and dotted.startswith("torch.") and n == 2 and not k:
            return op("sum", (mul(a[0], a[1]),))  # vectors
        if name == "sqrt" and n == 1:
            from fractions import Fraction
            return power(a[0], Fraction(1, 2))
        if name == "rsqrt" and n == 1:
            from fractions import Fraction
            return power(a[0], Fraction(-1, 2))
        if name == "square" and n == 1:
            return power(a[0], 2)
        if name == "reciprocal" and n == 1:
            return power(a[0], -1)
        if name in ("addcmul", "addcdiv") and n == 3 and not (method and stmt):
            w = mul(a[1], a[2] if name == "addcmul" else power(a[2], -1))
            return add(a[0], mul(k["value"], w) if "value" in k else w)
        if name == "lerp" and n == 3 and not (method and stmt):
            return add(a[0], mul(a[2], sub(a[1], a[0])))
        if name == "neg" and n == 1:
            return neg(a[0])
        if name in ("add", "sub", "mul", "div", "pow") and n == 2 and not (method and stmt):
            if "alpha" in k:
                a[1] = mul(a[1], k["alpha"])
            if method and name == "add" and a[0].op in ("attr",) and False:
                return None
            return self.binop(name, a[0], a[1])
        if name == "pow" and n == 1 and ("exponent" in k):
            return self.binop("pow", a[0], k["exponent"])
        if name in ("eq", "ne", "lt", "le", "gt", "ge", "equal", "greater_equal", "less_equal", "not_equal") and n == 2:
            m = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "greater_equal": ">=",
                 "less_equal": "<=", "not_equal": "!="}
            if name == "equal":
                return op("alltrue_eq", tuple(sorted(a, key=lambda t: t.dig)))
            return cmp(m[name], a[0], a[1])
        if name == "not" and n == 1 and not method or orig in ("logical_not", "bitwise_not") and n == 1:
            return not_(a[0])
        if orig in ("logical_and",) and n == 2:
            return and_(a[0], a[1])
        if orig in ("logical_or",) and n == 2:
            return or_(a[0], a[1])
        if name in ("max", "min"):
            if n == 2 and not k and (a[1].op not in ("const",)) and method is False and (dotted or "").startswith("torch"):
                return op("maximum" if name == "max" else "minimum", (a[0], a[1]))
            if n == 2 and not k and method and not is_num(a[1]):
                return op("maximum" if name == "max" else "minimum", (a[0], a[1]))
            if n == 2 and "dim" not in k:
                k["dim"] = a[1]
                a = a[:1]
            if n == 3:
                k["dim"], k["keepdim"] = a[1], a[2]
                a = a[:1]
            if "dim" in k and k["dim"] is not NONE:
                kk = _kw(k, dict(keepdim=FALSE))
                v = op("a" + name, (a[0],), kk)
                if (dotted or "").startswith("numpy"):
                    return v
                return mk("tuple", v, op("arg" + name, (a[0],), kk))
            return op("a" + name, (a[0],))
        if name in ("maximum", "minimum", "fmax", "fmin") and n == 2:
            return op({"fmax": "maximum", "fmin": "minimum"}.get(name, name), tuple(a))
        if name in ("amax", "amin", "argmax", "argmin", "sum", "mean", "prod", "std", "var", "median", "logsumexp", "softmax",
                    "log_softmax", "cumprod", "cumsum", "gather", "index_select", "scatter", "scatter_add", "clamp", "cat", "stack",
                    "unsqueeze", "squeeze", "transpose", "chunk", "split", "topk", "sort", "argsort", "flatten", "where",
                    "masked_fill", "one_hot", "mse_loss", "smooth_l1_loss", "l1_loss", "binary_cross_entropy",
                    "binary_cross_entropy_with_logits", "kl_div", "cross_entropy", "nll_loss", "norm", "full", "full_like",
                    "linspace", "repeat_interleave", "roll", "dropout", "searchsorted", "matmul", "dot", "outer",
                    "fmod", "remainder", "tril", "triu", "diag", "diagonal", "flip", "nonzero", "bincount", "unique", "eye",
                    "expand_as", "view_as", "nan_to_num", "masked_select", "nansum", "nanmean", "digitize",
                    "take_along_axis"):
            if name == "std" and False:
                pass
            params, nval, dflt = O.SIG[name]
            if name in ("split",) and method and a and (_stringy(a[0]) or any(is_str(x) for x in a[1:])):
                return None
            if name == "sort" and method and stmt:
                return None
            if name == "where" and method and n >= 1:
                # x.where(cond, y)
                if n == 3:
                    a = [a[1], a[0], a[2]]
                    n = 3
            if name == "where" and n == 1:
                return op("nonzero", (a[0],))
            d = {}
            if name in ("cat", "stack") and "arrays" in k:
                d["tensors"] = k.pop("arrays")
            for i, v in enumerate(a):
                if i >= len(params):
                    if name in ("sum", "mean") and False:
                        pass
                    return None
                d[params[i]] = v
            for kk, v in k.items():
                d[kk] = v
            ren = {"self": "input", "tensor": "input", "a": "a", "condition": "condition", "x": "x", "other": "other"}
            if params[0] not in d:
                for alt in ("input", "x", "a", "tensors", "self", "tensor"):
                    if alt in d:
                        d[params[0]] = d.pop(alt)
                        break
            vals = []
            for p in params[:nval]:
                if p not in d:
                    return None
                vals.append(d.pop(p))
            kk = {}
            for p, v in d.items():
                if p in O.DROPKW:
                    continue
                dv = dflt.get(p, "__no")
                if dv != "__no" and const(dv) is v:
                    continue
                kk[p] = v
            if name in ("topk", "sort", "median") and (name != "median" or "dim" in kk) and not (dotted or "").startswith("numpy"):
                return mk("tuple", op(name + "_v", tuple(vals), kk), op(name + "_i", tuple(vals), kk))
            if name == "argsort":
                return op("sort_i", tuple(vals), kk)
            if name == "gather":
                # gather(x, dim, index)
                return op("gather", (vals[0], kk.get("index", NONE)), {"dim": kk.get("dim", NONE)})
            if name in ("sum", "mean") and vals and vals[0].op in ("list", "tuple") and not kk:
                if name == "sum":
                    return add(*vals[0].args)
            if name == "sum" and vals[0].op in ("map", "fmap") and not kk:
                return self.builtin("sum", [vals[0]], {}, ctx, st, None)
            if name == "full":
                return op("full", (vals[0], vals[1]))
            if name == "dropout":
                return op("dropout", tuple(vals), kk)
            return op(name, tuple(vals), kk)
        if name in ("any", "all"):
            if n == 1 and not k:
                return op(name + "_t", (a[0],))
            if n == 2:
                k["dim"] = a[1]
            return op(name + "_t", (a[0],), _kw(k, dict(keepdim=FALSE)))
        if orig in ("hstack", "column_stack") and n == 1 and a[0].op in ("list", "tuple") and any(_table(x) for x in a[0].args):
            return op("cat", (mk("list", *a[0].args),), {"dim": ONE})
        if orig == "vstack" and n == 1 and a[0].op in ("list", "tuple") and any(_table(x) for x in a[0].args):
            return op("cat", (mk("list", *a[0].args),), {"dim": ZERO})
        if name in ("zeros", "ones", "empty", "new_zeros", "new_ones"):
            if name.startswith("new_"):
                a = a[1:]
                name = name[4:]
            if "size" in k:
                a = [k["size"]]
            shape = a[0] if len(a) == 1 else mk("tuple", *a)
            if shape.op == "list":
                shape = mk("tuple", *shape.args)
            if shape.op not in ("tuple",) and not (shape.op == "op" and shape.args[0] == "shape") and (is_num(shape) or shape.op in ("attr", "sym", "len", "poly")):
                shape = mk("tuple", shape)
            v = {"zeros": ZERO, "ones": ONE, "empty": sym("empty")}[name]
            return op("full", (shape, v))
        if name in ("zeros_like", "ones_like", "empty_like") and n >= 1:
            return op("full_like", (a[0], {"zeros_like": ZERO, "ones_like": ONE, "empty_like": sym("empty")}[name]))
        if name == "new_full" and n == 3:
            return op("full", (a[1], a[2]))
        if name == "arange":
            if n == 1:
                a = [ZERO, a[0], ONE]
            elif n == 2:
                a = a + [ONE]
            if "step" in k:
                a = a[:2] + [k["step"]]
            if "start" in k and "end" in k:
                a = [k["start"], k["end"], k.get("step", ONE)]
            if a[0] is ZERO and a[2].op in ("attr", "len", "sym"):
                count = T.div(a[1], a[2])  # a whole number of steps
                if not any(x.op == "poly" and any(e != int(e) or e < 0 for _, mono in x.args for _, e in mono) for x in T.subterms(count)):
                    return T.mul(op("arange", (ZERO, count, ONE)), a[2])
            return op("arange", tuple(a))
        if name in ("tensor", "array", "FloatTensor", "LongTensor", "BoolTensor", "IntTensor", "DoubleTensor", "Tensor", "float32", "float64", "int64") and n == 1:
            x = a[0]
            if x.op in ("list", "tuple") and len(x.args) == 1 and is_num(x.args[0]):
                return x.args[0]  # one-element constant: broadcasts like the number
            if x.op in ("list", "tuple", "map", "fmap", "flat", "concat") or x.op == "ite":
                return op("tensor", (x,))
            return x
        if name == "size" and method:
            s = op("shape", (a[0],))
            return item(s, a[1]) if n == 2 else (item(s, k["dim"]) if "dim" in k else s)
        if name == "numel" and n == 1 or name == "nelement" and n == 1:
            return op("numel", (a[0],))
        if name in ("dim", "ndimension") and method and n == 1:
            return length(op("shape", (a[0],)))
        if name in ("reshape", "expand", "repeat", "permute", "tile") and method and n >= 1:
            if name == "permute" and False:
                pass
            sh = a[1] if n == 2 and a[1].op in ("tuple", "list") else mk("tuple", *a[1:])
            if sh.op == "list":
                sh = mk("tuple", *sh.args)
            if "shape" in k or "size" in k:
                sh = k.get("shape", k.get("size"))
            return op(name, (a[0], sh))
        if name in ("reshape", "tile", "permute", "broadcast_to") and n == 2:
            sh = a[1]
            if sh.op == "list":
                sh = mk("tuple", *sh.args)
            if sh.op != "tuple":
                sh = mk("tuple", sh)
            return op(name, (a[0], sh))
        if name == "T" and n == 1:
            return op("T", (a[0],))
        if name == "unbind" and n >= 1:
            return op("unbind", (a[0],), _kw({**({"dim": a[1]} if n > 1 else {}), **k}, dict(dim=ZERO)))
        if name == "isclose" or name == "allclose":
            return op(name, tuple(a), k)
        if name == "einsum":
            if len(a) == 2 and a[1].op in ("tuple", "list"):
                a = [a[0]] + list(a[1].args)
            if a and is_str(a[0]) and "->" in a[0].args[1]:
                ins, out = a[0].args[1].replace(" ", "").split("->")
                ins = ins.split(",")
                # elementwise product with trailing broadcasting
                if len(ins) == len(a) - 1 and len(set(out)) == len(out) and any(x == out for x in ins) and all(
                        out.endswith(x) for x in ins):
                    r = a[1]
                    for x in a[2:]:
                        r = T.mul(r, x)
                    return r
            return op("einsum", tuple(a))
        if name == "erfinv" or name == "lgamma":
            return op(name, tuple(a))
        if name in ("inf",):
            return T.INF
        return None


def KW(x):
    return O.KWALIAS.get(x, x)


def _kw(k, dflt):
    return {a: b for a, b in k.items() if not (a in dflt and dflt[a] is b)}


def fmt(parts):
    out = []
    for p in parts:
        if p.op == "fmt":
            ps = p.args
        elif p.op == "op" and p.args[0] == "str":
            ps = p.args[1]
        else:
            ps = (p,)
        for q in ps:
            if is_num(q):
                q = const(str(q.args[1]))
            if is_str(q) and out and is_str(out[-1]):
                out[-1] = const(out[-1].args[1] + q.args[1])
            elif is_str(q) and q.args[1] == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk("fmt", *out)


def fmt_format(s, args, kw):
    import re

    if is_str(s):
        txt = s.args[1]
        parts = []
        pos = 0
        auto = 0
        ok = True
        for m in re.finditer(r"\{([A-Za-z0-9_]*)\}", txt):
            parts.append(const(txt[pos:m.start()]))
            key = m.group(1)
            if key == "":
                i = auto
                auto += 1
            elif key.isdigit():
                i = int(key)
            else:
                i = key
            v = kw.get(i) if isinstance(i, str) else (args[i] if i < len(args) else None)
            if v is None:
                ok = False
                break
            parts.append(v)
            pos = m.end()
        if ok and "{" not in re.sub(r"\{[A-Za-z0-9_]*\}", "", txt):
            parts.append(const(txt[pos:]))
            return fmt(parts)
    return op("strformat", (s,) + tuple(args), kw)


T.REBUILD["fmt"] = lambda *a: fmt(list(a))


def _stringy(t):
    return t.op == "fmt" or is_str(t)


def _listy(t):
    if t.op in ("list", "map", "fmap", "flat", "concat", "tuple"):
        return True
    if t.op == "ite":
        return _listy(t.args[1]) and _listy(t.args[2])
    if t.op == "op" and t.args[0] in ("sorted", "repeatlist"):
        return True
    return False


def _isbool(t):
    return t.op in ("cmp", "and", "or", "not", "isinst", "any", "all", "hasattr") or is_bool(t) or T.boolcall(t)


_ref_memo = {}


def _has_ref(t):
    r = _ref_memo.get(t)
    if r is None:
        r = t.op == "ref" or any(_has_ref(c) for c in T.children(t))
        _ref_memo[t] = r
    return r


def _masklike(e):
    """an expression spelled as the conversion of a tensor to booleans"""
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and (
        e.func.attr == "bool" and not e.args or e.func.attr in ("to", "type") and any(
            isinstance(a, ast.Attribute) and a.attr in ("bool", "uint8") or isinstance(a, ast.Name) and a.id == "bool" for a in e.args))


def _as_load(t):
    import copy

    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _cond_assigned(body):
    """names bound only below an if of the loop body (their value may stem from an earlier iteration)"""
    always, cond = set(), set()

    def go(b, c):
        for n in b:
            if isinstance(n, ast.If):
                go(n.body, True)
                go(n.orelse, True)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name):
                        (cond if c else always).add(t.id)
            elif c or isinstance(n, (ast.For, ast.While, ast.With, ast.Try)):
                always.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))

    go(body, False)
    return cond - always


_COUNTING = {}


def _table(t):
    """evidently two-dimensional"""
    if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
        return all(x.op == "slice" for x in t.args[1].args)
    if t.op == "op" and t.args[0] == "full":
        return t.args[1][0].op in ("tuple", "list") and len(t.args[1][0].args) == 2
    if t.op in ("add", "mul", "poly"):
        return any(_table(x) for x in T.subterms(t) if x.op in ("item", "op"))
    return False


_BREAKING = {}


def breaking_loop(s, fn):
    """while True: A; if c: break; B  ->  stop = False; while not stop: A; stop = c; B unless stop

    B is not guarded when it only sets variables nobody reads after the loop."""
    if s in _BREAKING:
        return _BREAKING[s]
    _BREAKING[s] = None

    def leaves(stmts):
        for n in stmts:
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom)):
                yield n
            elif isinstance(n, (ast.For, ast.While)):
                for x in leaves(n.body + n.orelse):
                    if not isinstance(x, (ast.Break, ast.Continue)):
                        yield x
            elif not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for x in ast.iter_child_nodes(n):
                    yield from leaves([x])

    ls = list(leaves(s.body))
    at = [i for i, n in enumerate(s.body) if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Break)]
    if s.orelse or len(ls) != 1 or len(at) != 1 or at[0] == 0:
        return None
    i = at[0]
    flag = "__stop%d" % s.lineno
    load = lambda: ast.UnaryOp(op=ast.Not(), operand=ast.Name(id=flag, ctx=ast.Load()))
    tail = s.body[i + 1:]
    names = set()
    plain = True
    for n in tail:
        for x in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else [None]:
            plain = plain and isinstance(x, ast.Name) and not any(isinstance(y, (ast.Call, ast.NamedExpr)) for y in ast.walk(n))
            if plain:
                names.add(x.id)
    inside = {id(x) for x in ast.walk(s)}
    nested = any(isinstance(x, (ast.For, ast.While)) and x is not s and any(y is s for y in ast.walk(x)) for x in ast.walk(fn))
    if plain and any(isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) and id(x) not in inside
                     and (nested or x.lineno > s.lineno) for x in ast.walk(fn)):
        plain = False
    if tail and not plain:
        tail = [ast.If(test=load(), body=tail, orelse=[])]
    stop = ast.Assign(targets=[ast.Name(id=flag, ctx=ast.Store())], value=s.body[i].test)
    w = ast.While(test=load(), body=s.body[:i] + [stop] + tail, orelse=[])
    for n in ast.walk(w):
        if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
            ast.copy_location(n, s)
    ast.fix_missing_locations(w)
    _BREAKING[s] = flag, w
    return flag, w


def counting_loop(s):
    """while i < N: body; i += 1  ->  for i in range(i, N): body  (counting down likewise; None if not of that form)"""
    if s in _COUNTING:
        return _COUNTING[s]
    _COUNTING[s] = None
    t = s.test
    if s.orelse or len(s.body) < 2 or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    a, b = t.left, t.comparators[0]
    o = type(t.ops[0])
    inc, body = s.body[-1], s.body[:-1]
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    if o not in flip:
        return None
    if not (isinstance(a, ast.Name) and _stepped(inc) == a.id):
        a, b, o = b, a, flip[o]
    if not isinstance(a, ast.Name):
        return None
    if _stepped(inc) != a.id and _stepped(s.body[0]) == a.id and not any(
            isinstance(x, ast.Name) and x.id == a.id for n in s.body[1:] for x in ast.walk(n)):
        inc, body = s.body[0], s.body[1:]
    if _stepped(inc) != a.id:
        return None
    step = _step(inc)
    if step != (1 if o in (ast.Lt, ast.LtE) else -1):
        return None
    written = _assigned(body)
    attrs = set()
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                attrs.add(x.attr)
    for x in ast.walk(b):
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and isinstance(x.args[0], ast.Name)):
            return None
        if isinstance(x, ast.Name) and x.id in written or isinstance(x, ast.Attribute) and x.attr in attrs:
            return None
    if a.id in written:
        return None
    if o in (ast.LtE, ast.GtE):
        b = ast.BinOp(left=b, op=ast.Add(), right=ast.Constant(value=step))
    args = [ast.Name(id=a.id, ctx=ast.Load()), b]
    if step == -1:
        if not any(isinstance(x, ast.Name) and x.id == a.id for n in body for x in ast.walk(n)) and isinstance(b, ast.Constant) and b.value == 0:
            args = [ast.Constant(value=0), args[0], ast.Constant(value=1)]  # only the number of rounds matters
        else:
            args.append(ast.Constant(value=-1))
    f = ast.For(target=ast.Name(id=a.id, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=args, keywords=[]),
                body=body, orelse=[], type_comment=None)
    f.exit = b
    ast.copy_location(f, s)
    ast.fix_missing_locations(f)
    ast.fix_missing_locations(ast.copy_location(ast.Expr(value=b), s))
    _COUNTING[s] = f
    return f


def _stepped(n):
    """name a statement adds a constant to"""
    if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.target, ast.Name) and _step(n) is not None:
        return n.target.id
    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and _step(n) is not None:
        return n.targets[0].id
    return None


def _step(n):
    one, sign = None, 1
    if isinstance(n, ast.AugAssign):
        one, sign = n.value, -1 if isinstance(n.op, ast.Sub) else 1
    elif isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub)):
        l, r = n.value.left, n.value.right
        name = n.targets[0].id
        if isinstance(r, ast.Name) and r.id == name and isinstance(n.value.op, ast.Add):
            l, r = r, l
        if isinstance(l, ast.Name) and l.id == name:
            one, sign = r, -1 if isinstance(n.value.op, ast.Sub) else 1
    if isinstance(one, ast.Constant) and type(one.value) is int:
        return sign * one.value
    return None


def _assigned(body):
    out = set()
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        # in-place mutation through a name: x[i] = v, x.append(v)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id != "self":
                out.add(b.id)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            b = n.value
            if isinstance(b, ast.Name) and b.id != "self":
                out.add(b.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr in MUT or n.func.attr.endswith("_")):
            b = n.func.value
            while isinstance(b, (ast.Subscript,)):
                b = b.value
            if isinstance(b, ast.Name) and b.id != "self":
                out.add(b.id)
        st.extend(ast.iter_child_nodes(n))
    return out


def _targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _pure_const_call(e):
    """a numeric library expression without effects (np.finfo(float).eps.item(), math.log(2.0), torch.tensor(...))"""
    n = e
    while isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)):
        n = n.func if isinstance(n, ast.Call) else n.value
    return isinstance(n, ast.Name) and n.id in ("np", "numpy", "math", "torch")


def _drop(p, c, v):
    """path condition p knowing c == v"""
    return T.subst(p, {c: const(v)} if c.op != "not" else {c.args[0]: const(not v), c: const(v)})


def _repath(s, base, c):
    r = s.fork()
    r.path = base.path + (c,)
    return r


def _union_events(prefix, *lists):
    out = list(prefix)
    seen = set(id(e) for e in prefix)
    merged = []
    for l in lists:
        pos = None
        for e in l:
            if id(e) in seen:
                continue
            seen.add(id(e))
            merged.append(e)
    # program order by source position within the same function, stable otherwise
    return out + merged


def _residual(g, path):
    have = set(path)
    for p in path:
        if p.op == "and":
            have |= set(p.args)
    parts = g.args if g.op == "and" else (g,)
    return and_(*[x for x in parts if x not in have])


def _leafcond(t, leaf):
    if t is leaf:
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], _leafcond(t.args[1], leaf), _leafcond(t.args[2], leaf))
    return FALSE


def _blind(t, byfresh, idx=None):
    if t is None:
        return ""
    z = sym("carry")
    m = {f: z for f in byfresh}
    if idx is not None:
        m[idx] = sym("iteration")
    return T.subst(t, m).dig


def _delta(u, c):
    if u is c:
        return ZERO
    if u.op == "ite" and not T.occurs(u.args[0], c):
        a, b = _delta(u.args[1], c), _delta(u.args[2], c)
        return None if a is None or b is None else ite(u.args[0], a, b)
    if u.op == "poly":
        k = [cc for cc, m in u.args if m == ((c, 1),)]
        if k == [1]:
            d = sub(u, c)
            if not T.occurs(d, c):
                return d
    return None


def _ratio(u, c):
    if u is c:
        return ONE
    if u.op == "ite" and not T.occurs(u.args[0], c):
        a, b = _ratio(u.args[1], c), _ratio(u.args[2], c)
        return None if a is None or b is None else ite(u.args[0], a, b)
    if u.op == "poly":
        if all(any(x is c and p == 1 for x, p in m) for _, m in u.args):
            d = div(u, c)
            if not T.occurs(d, c):
                return d
    return None


def _appends(u, c):
    """(gate, element or list, is_flat) for u = c ++ [...]"""
    if u.op == "concat" and u.args[0] is c:
        rest = u.args[1:]
        if any(T.occurs(r, c) for r in rest):
            return None
        if len(rest) == 1 and rest[0].op == "list" and len(rest[0].args) == 1:
            return TRUE, rest[0].args[0], False
        x = rest[0] if len(rest) == 1 else mk("concat", *rest)
        return TRUE, x, True
    if u.op == "ite" and not T.occurs(u.args[0], c):
        cnd, a, b = u.args
        if b is c:
            r = _appends(a, c)
            return None if r is None else (and_(cnd, r[0]), r[1], r[2])
        if a is c:
            r = _appends(b, c)
            return None if r is None else (and_(not_(cnd), r[0]), r[1], r[2])
        ra, rb = _appends(a, c), _appends(b, c)
        if ra is None or rb is None:
            return None
        if not ra[2] and not rb[2] and ra[0] is TRUE and rb[0] is TRUE:
            return TRUE, ite(cnd, ra[1], rb[1]), False
        la = ra[1] if ra[2] else mk("list", ra[1])
        lb = rb[1] if rb[2] else mk("list", rb[1])
        la = ite(ra[0], la, mk("list"))
        lb = ite(rb[0], lb, mk("list"))
        return TRUE, ite(cnd, la, lb), True
    return None


def _isarray(t):
    while t.op in ("setitem", "updated"):
        t = t.args[0]
    return t.op == "op" and t.args[0] in ("full", "full_like", "arange", "eye", "empty", "rand", "randn")


def _flatsets(u):
    """a[i][j] = v on an array is a[i, j] = v"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = T.rebuild(x, go)
            if r.op == "setitem" and r.args[2].op == "setitem" and r.args[1].op == "const" and r.args[1].args[0] == "num":
                b, k, (ib, k2, v) = r.args[0], r.args[1], r.args[2].args
                if ib is item(b, k) and k2.op != "tuple":
                    r = O.setitem(b, mk("tuple", k, k2), v)
            memo[x] = r
        return r

    return go(u)


def _sets(u, c):
    if u.op == "setitem" and u.args[0] is c and not T.occurs(u.args[1], c) and not T.occurs(u.args[2], c):
        return TRUE, u.args[1], u.args[2]
    if u.op == "ite" and not T.occurs(u.args[0], c):
        cnd, a, b = u.args
        if b is c:
            r = _sets(a, c)
            return None if r is None else (and_(cnd, r[0]), r[1], r[2])
        if a is c:
            r = _sets(b, c)
            return None if r is None else (and_(not_(cnd), r[0]), r[1], r[2])
        ra, rb = _sets(a, c), _sets(b, c)
        if ra and rb and ra[0] is TRUE and rb[0] is TRUE:
            return TRUE, ite(cnd, ra[1], rb[1]), ite(cnd, ra[2], rb[2])
    return None


def _boolcarry(u, c):
    """flag and x, where the flag is a truth value: x if the flag was true, else the flag"""
    if u.op == "ite":
        p, x, y = u.args
        if p is truthy(c):
            m = T.subst(x, {p: TRUE, c: TRUE})
            if T.subst(y, {c: FALSE}) is FALSE and _isbool(m):
                return ite(m, c, FALSE)
            m = T.subst(y, {p: FALSE, c: FALSE})
            if T.subst(x, {p: TRUE, c: TRUE}) is TRUE and _isbool(m):
                return ite(m, TRUE, c)
            return u
        if not T.occurs(p, c):
            return ite(p, _boolcarry(x, c), _boolcarry(y, c))
    return u


def _bools(u, c):
    if u.op == "or" and c in u.args:
        r = or_(*[x for x in u.args if x is not c])
        return None if T.occurs(r, c) else ("or", r)
    if u.op == "and" and c in u.args:
        r = and_(*[x for x in u.args if x is not c])
        return None if T.occurs(r, c) else ("and", r)
    if u.op == "ite" and not T.occurs(u.args[0], c):
        if u.args[1] is TRUE and u.args[2] is c:
            return "or", u.args[0]
        if u.args[2] is FALSE and u.args[1] is c:
            return "and", u.args[0]
    return None


# mutability of attributes -------------------------------------------------


def is_dict_annotation(a):
    n = a.value if isinstance(a, ast.Subscript) else a
    return (n.id if isinstance(n, ast.Name) else getattr(n, "attr", "")) in ("Dict", "dict", "Mapping", "OrderedDict")


def _unimplemented(fn):
    """a method left to subclasses"""
    b = [x for x in fn.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if len(b) != 1 or not isinstance(b[0], ast.Raise) or b[0].exc is None:
        return False
    e = b[0].exc.func if isinstance(b[0].exc, ast.Call) else b[0].exc
    return isinstance(e, ast.Name) and e.id == "NotImplementedError"


def self_writes(fn, selfname=None):
    """attributes of self written (rebound, item-assigned or mutated) in a function"""
    a = fn.node.args.args
    if not a:
        return set()
    me = a[0].arg
    out = set()

    def base_attr(n):
        while isinstance(n, (ast.Subscript,)):
            n = n.value
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            return n.attr
        return None

    for n in ast.walk(fn.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = base_attr(n)
            if b:
                out.add(b)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in MUT - {"get"} or (n.func.attr.endswith("_") and not n.func.attr.endswith("__")):
                b = base_attr(n.func.value)
                if b:
                    out.add(b)
            if n.func.attr == "register_buffer" and n.args and isinstance(n.args[0], ast.Constant):
                out.add(n.args[0].value)
    return out


def self_calls(fn):
    a = fn.node.args.args
    if not a:
        return set()
    me = a[0].arg
    out = set()
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            v = n.func.value
            if isinstance(v, ast.Name) and v.id == me:
                out.add(n.func.attr)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                out.add(n.func.attr)
    return out


def _is_mutable(self, cls, name):
    return name in self.mutable_attrs(cls)


def _mutable_attrs(self, cls):
    memo = self.__dict__.setdefault("_mut", {})
    if cls.qual in memo:
        return memo[cls.qual]
    # init closure
    initset = set()
    work = []
    for c in self.ix.mro(cls):
        for nm in ("__init__", "__post_init__", "__post_init_post_parse__"):
            if nm in c.methods:
                work.append(c.methods[nm])
    seen = set()
    while work:
        f = work.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for nm in self_calls(f):
            for c in self.ix.mro(cls):
                if nm in c.methods:
                    work.append(c.methods[nm])
    # a function reachable from __init__ that is also reachable from elsewhere counts as mutator
    callers = {}
    allf = []
    for c in self.ix.mro(cls):
        for f in list(c.methods.values()) + list(c.setters.values()):
            allf.append(f)
    mut = set()
    for f in allf:
        if f.qual in seen and f.name in ("__init__", "__post_init__", "__post_init_post_parse__"):
            continue
        if f.qual in seen:
            # helper used by init: called from other methods too?
            used = any(f.name in self_calls(g) for g in allf if g.qual not in seen)
            if not used and f.name.startswith("_"):
                continue
        mut |= self_writes(f)
    memo[cls.qual] = mut
    return mut


Interp.is_mutable = _is_mutable
Interp.mutable_attrs = _mutable_attrs
