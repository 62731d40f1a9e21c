"""Every name, attribute, import and call inside the library is valid on every path."""
import ast

from sa import driver as D
from sa import wellformed as W
from sa.index import Class, Func, deco_name

SKIP = ("reagent.test.", "reagent.notebooks.")


def run(cx):
    ix = cx.ix
    mods = [m for m in ix.all_modules() if not m.name.startswith(SKIP) and ".test." not in m.name and not m.name.endswith(".test")]
    classes = [c for m in mods for c in m.syms.values() if isinstance(c, Class)]
    mem = W.Members(ix, classes)
    st = dict(names=0, imports=0, calls=0, attributes=0, functions=0)
    for m in mods:
        sc = W.Scan(ix, m).run()
        st["names"] += sc.names
        bad = ["`%s` (line %d)" % (n.id, n.lineno) for n, c, f in sc.unresolved]
        cx.fact("every name is bound in an enclosing scope of the open-source build", m.name, "names resolve", not bad, "unbound: " + ", ".join(bad[:4]), "%s:%d" % (m.relpath, sc.unresolved[0][0].lineno if bad else 1))
        imports(cx, m, st)
        types = Types(ix, m)
        calls(cx, m, sc, types, st)
        attributes(cx, m, mem, types, st)
        assigned(cx, m, st)
    cx.coverage.update(st)


def imports(cx, m, st):
    ix = cx.ix
    bad = []

    def walk(n, guarded):
        if isinstance(n, ast.Try) and any(h.type is not None and "ImportError" in ast.dump(h.type) or h.type is None for h in n.handlers):
            guarded = True
        if isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                pkg = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                pkg = pkg[: len(pkg) - (n.level - 1)]
                base = ".".join(pkg + ([n.module] if n.module else []))
            if base.split(".")[0] == "reagent" and not guarded:
                for a in n.names:
                    st["imports"] += 1
                    if a.name != "*":
                        r = ix.resolve_dotted(base, a.name)
                        if isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("reagent.") and a.name not in W.bound(ix.module(base).tree.body if ix.module(base) else []):
                            bad.append((n, base + "." + a.name))
        elif isinstance(n, ast.Import) and not guarded:
            for a in n.names:
                if a.name.split(".")[0] == "reagent":
                    st["imports"] += 1
                    if ix.module(a.name) is None:
                        bad.append((n, a.name))
        for c in W.live(n):
            walk(c, guarded)

    walk(m.tree, False)
    cx.fact("every import from the library names something that exists", m.name, "imports resolve", not bad, "missing: " + ", ".join(x for _, x in bad[:4]),
            "%s:%d" % (m.relpath, bad[0][0].lineno if bad else 1))


class Types:
    """classes of expressions: annotated parameters, constructed locals, and attributes set from them in a constructor"""

    def __init__(self, ix, m):
        self.ix = ix
        self.m = m
        self.attr = {}

    def ann(self, a, module=None):
        return D._ann_class(self.ix, module or self.m, a) if a is not None else None

    def env(self, fn, cls):
        """parameter and local types of a function"""
        env = {}
        stores = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
        nested = [n for n in ast.walk(fn) if isinstance(n, W.FN) and n is not fn]
        hidden = set()
        for n in nested:
            hidden |= W.params(n.args)
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg not in stores and x.arg not in hidden:
                k = self.exact(x.annotation)
                if k is not None:
                    env[x.arg] = k
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and stores.get(n.targets[0].id) == 1 \
                    and n.targets[0].id not in hidden and n.targets[0].id not in W.params(a):
                k = self.made(n.value)
                if k is not None:
                    env[n.targets[0].id] = k
        return env

    def exact(self, ann):
        """only annotations that name one class"""
        if ann is None:
            return None
        if isinstance(ann, ast.Subscript):
            if deco_name(ann.value).split(".")[-1] != "Optional":
                return None
            return self.exact(ann.slice)
        if not isinstance(ann, (ast.Name, ast.Attribute, ast.Constant)):
            return None
        return self.ann(ann)

    def made(self, v):
        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)):
            k = self.ix.resolve_expr_class(self.m, v.func)
            if isinstance(k, Class) and not self.ix.is_enum(k) and "__new__" not in k.methods:
                return k
        return None

    def fields(self, cls):
        """attribute types of self: set exactly once in the class hierarchy, in a constructor, from a typed value"""
        if cls.qual in self.attr:
            return self.attr[cls.qual]
        out, count = {}, {}
        for k in self.ix.mro(cls):
            sub = Types(self.ix, k.module)
            for f in list(k.methods.values()) + list(k.setters.values()):
                env = None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        count[n.attr] = count.get(n.attr, 0) + 1
                if f.node.name != "__init__":
                    continue
                env = sub.env(f.node, k)
                for n in f.node.body:
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) \
                            and n.targets[0].value.id == "self":
                        t = env.get(n.value.id) if isinstance(n.value, ast.Name) else sub.made(n.value)
                        if t is not None:
                            out[n.targets[0].attr] = t
        for k in self.ix.mro(cls):
            for n in set(k.methods) | set(k.attrs) | {f[0] for f in k.fields}:
                out.pop(n, None)
        out = {a: t for a, t in out.items() if count.get(a) == 1}
        self.attr[cls.qual] = out
        return out

    def of(self, e, env, cls):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and cls is not None:
            return self.fields(cls).get(e.attr)
        if isinstance(e, ast.Call):
            return self.made(e)
        return None


def callee(cx, m, g, cls, scopes, env, types):
    """-> (what is called, reason the arguments cannot bind as a function of the call)"""
    ix = cx.ix
    if isinstance(g, ast.Name):
        if any(g.id in s for s in scopes):
            return None
        r = ix.resolve_in(m, g.id)
        if isinstance(r, Func):
            return (r, 0) if not W.wrapped(r) else None
        return (r, None) if isinstance(r, Class) else None
    if not isinstance(g, ast.Attribute):
        return None
    b = g.value

    def method(k, after=None):
        f = ix.find_method(k, g.attr, after=after)
        if f is None or W.wrapped(f) or f.is_property:
            return None
        return (f, 0 if f.is_static else 1)

    if isinstance(b, ast.Name) and b.id in ("self", "cls") and isinstance(cls, Class):
        if b.id == "self" and g.attr in assigned_attrs(ix, cls):
            return None
        return method(cls)
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and isinstance(cls, Class):
        return method(cls, after=cls)
    t = types.of(b, env, cls)
    if t is not None:
        if g.attr in assigned_attrs(ix, t):
            return None
        return method(t)
    parts = []
    e = g
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name) or any(e.id in s for s in scopes):
        return None
    parts.append(e.id)
    parts.reverse()
    r = ix.resolve_in(m, parts[0])
    for i, p in enumerate(parts[1:]):
        if isinstance(r, tuple) and r and r[0] == "mod":
            mod = ix.module(r[1])
            if mod is None:
                return None
            r = ix.resolve_dotted(r[1], p)
            if isinstance(r, tuple) and r[0] == "ext":
                return ("missing", ".".join(parts[: i + 2])) if p not in W.bound(mod.tree.body) else None
        elif isinstance(r, Class):
            f = ix.find_method(r, p)
            if f is not None:
                if W.wrapped(f) or i != len(parts) - 2:
                    return None
                return (f, 1 if f.is_class else 0)
            r = r.nested.get(p)
        else:
            return None
    if isinstance(r, Func):
        return (r, 0) if not W.wrapped(r) else None
    return (r, None) if isinstance(r, Class) else None


_ASSIGNED = {}


def assigned_attrs(ix, c):
    """methods replaced on the instance"""
    out = set()
    for k in ix.mro(c):
        if k.qual not in _ASSIGNED:
            _ASSIGNED[k.qual] = (k, {n.attr for n in ast.walk(k.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"})
        if _ASSIGNED[k.qual][0] is not k:
            _ASSIGNED.clear()
            return assigned_attrs(ix, c)
        out |= _ASSIGNED[k.qual][1]
    return out


def calls(cx, m, sc, types, st):
    ix = cx.ix
    bad = []
    envs = {}
    swapped = []
    for call, cnode, fnode, scopes in sc.calls:
        cls = m.syms.get(cnode.name) if cnode is not None else None
        if cls is not None and not isinstance(cls, Class):
            cls = None
        if fnode is not None and id(fnode) not in envs:
            envs[id(fnode)] = types.env(fnode, cls)
        env = envs.get(id(fnode), {})
        r = callee(cx, m, call.func, cls, scopes, env, types)
        if r is None:
            continue
        st["calls"] += 1
        f, skip = r
        if f == "missing":
            why = "there is no `%s`" % skip
        elif isinstance(f, Class):
            why = W.construct_misfit(ix, f, call)
        else:
            why = W.misfit(f.node.args, call, skip)
        if f != "missing" and why is None:
            x = W.crossed(W.parameters(ix, f, skip), call)
            if x:
                swapped.append((call, "`%s` is passed as `%s` of `%s`" % (x[1], x[0], ast.unparse(call.func)[:60])))
        if why:
            where = "%s%s" % (cls.name + "." if cls else "", fnode.name if fnode is not None else "<module>")
            bad.append((call, "%s calls `%s`: %s" % (where, ast.unparse(call.func)[:60], why)))
    cx.fact("the arguments of every resolved call bind to the signature of its target", m.name, "calls match signatures", not bad, "; ".join(x for _, x in bad[:3]),
            "%s:%d" % (m.relpath, bad[0][0].lineno if bad else 1))
    for c in m.syms.values():
        if isinstance(c, Class) and "__init__" in c.methods:
            swapped += [(n, "%s keeps argument `%s` as `%s`" % (c.name, v, a)) for n, a, v in W.crossed_store(c.methods["__init__"].node)]
    cx.fact("an argument named after one parameter is not bound to another one", m.name, "arguments reach the parameters they are named after", not swapped,
            "; ".join(x for _, x in swapped[:3]), "%s:%d" % (m.relpath, swapped[0][0].lineno if swapped else 1))


def attributes(cx, m, mem, types, st):
    """attributes of self, of annotated parameters and of constructed locals exist"""
    bad = []
    for c in m.syms.values():
        if isinstance(c, Class):
            for f in list(c.methods.values()) + list(c.setters.values()):
                members(cx, m, f.node, c, mem, types, st, bad, None if f.is_static or f.is_class else W.self_names(f))
        elif isinstance(c, Func):
            members(cx, m, c.node, None, mem, types, st, bad, None)
    cx.fact("attributes read from instances of library classes are fields, methods or assigned attributes of the class", m.name, "attributes exist", not bad,
            "; ".join(x for _, x in bad[:3]), "%s:%d" % (m.relpath, bad[0][0].lineno if bad else 1))


def members(cx, m, fn, cls, mem, types, st, bad, me):
    env = types.env(fn, cls)
    tested = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "isinstance", "issubclass") and n.args:
            tested.setdefault(ast.dump(n.args[0]), True)
    for n in (x for s in fn.body for x in ast.walk(s)):
        if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
            continue
        b = n.value
        if isinstance(b, ast.Name) and me is not None and b.id == me and cls is not None:
            t = cls
        else:
            t = types.of(b, env, cls)
        if t is None or ast.dump(b) in tested:
            continue
        h = mem.has(t, n.attr)
        if h is None:
            continue
        st["attributes"] += 1
        if not h:
            bad.append((n, "%s%s reads `%s`, which %s does not have" % (cls.name + "." if cls else "", fn.name, ast.unparse(n)[:60], t.name)))


def assigned(cx, m, st):
    bad = []
    for fn in ast.walk(m.tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st["functions"] += 1
            d = W.Definite(fn)
            bad += [(e[0], "%s may read `%s` before it is assigned" % (fn.name, e[0].id)) for e in d.bad if d.clear(e)]
    cx.fact("a local is assigned on every path to each of its reads, unless the conditions of both are related", m.name, "locals are assigned before use", not bad,
            "; ".join(x for _, x in bad[:3]), "%s:%d" % (m.relpath, bad[0][0].lineno if bad else 1))
