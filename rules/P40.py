"""Configurations resolve to exactly the registered component they name."""
import ast

from sa.index import Class, deco_name

C = "reagent.core."
F = C + "configuration."


def named(v):
    """attribute stores whose name is computed"""
    return v.op == "tuple" and v.args[1].op != "const"


def run(cx):
    n = dict(init=False)
    cx.same(C + "registry_meta.RegistryMeta.__init__", "configs.register", "raises",
            lambda p: p.calls(kinds=("store", "setitem"), label="registrations"), **n)
    cx.same("specs.configs.use_fill", "configs.fill", "ret", lambda p: p.calls(kinds=("store",), where=named, label="member defaults"), opaque={"dataclass"})
    cx.same("specs.configs.use_instance", "configs.instance", "ret", opaque={"dataclass"})
    cx.same(C + "tagged_union.TaggedUnion.value", "configs.union_value", "ret", "raises", **n)
    cx.same(F + "_get_param_annotation", "configs.annotation", "ret", "raises=")
    cx.same(F + "_resolve_default", "configs.resolve", "ret", "raises=")
    cx.same(F + "param_hash", "configs.hashed", "ret", opaque={"_hash_field"})
    cx.same(F + "_hash_field", "configs.hash_field", "ret")
    for k in "02":
        cx.same("specs.configs.use_resolve" + k, "configs.resolved" + k, "ret", "raises", opaque={"_resolve_default"})
    op = {"dataclass", "_get_param_annotation", "param_hash"}
    for k in "white", "black", "plain":
        cx.same("specs.configs.use_" + k, "configs." + k, "ret", lambda p: p.calls(kinds=("store",), where=named, label="field defaults"), opaque=op)
    cx.same("specs.configs.use_asdict", "configs.asdict", "ret", opaque=op)

    field_defaults(cx)
    registries(cx)


def is_field(d):
    return isinstance(d, ast.Call) and deco_name(d.func).split(".")[-1] == "field"


def field_defaults(cx):
    """a function whose parameter default is a field(...) needs resolve_defaults: without it the Field object itself arrives"""
    rule = "field() parameter defaults are resolved by @resolve_defaults"
    seen = 0
    for m in cx.ix.all_modules():
        for cls, fn in functions(m.tree.body, None):
            ds = fn.args.defaults + [d for d in fn.args.kw_defaults if d is not None]
            if not any(is_field(d) for d in ds):
                continue
            seen += 1
            q = m.name + "." + (cls + "." if cls else "") + fn.name
            ok = any(deco_name(d).split(".")[-1] == "resolve_defaults" for d in fn.decorator_list)
            cx.fact(rule, q, "decorated", ok, "omitting the argument passes a dataclasses.Field object",
                    "%s:%d" % (m.relpath, fn.lineno))
    cx.coverage["functions with field() defaults"] = seen
    cx.need(seen > 0, "functions with field() defaults")


def functions(body, cls):
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield cls, s
        elif isinstance(s, ast.ClassDef):
            yield from functions(s.body, s.name)
        elif isinstance(s, (ast.If, ast.Try, ast.With)):
            yield from functions(s.body, cls)


def imported(ix, name, memo):
    """modules executed when the module is imported, transitively"""
    out, todo = set(), [name]
    while todo:
        n = todo.pop()
        parts = n.split(".")
        for i in range(1, len(parts) + 1):
            p = ".".join(parts[:i])
            if p in out or not p.startswith("reagent"):
                continue
            m = ix.module(p)
            if m is None:
                continue
            out.add(p)
            todo.extend(direct(ix, m))
    return out


def direct(ix, m):
    out = []
    todo = list(m.tree.body)
    while todo:
        s = todo.pop()
        if isinstance(s, ast.If):
            t = ast.unparse(s.test)
            if t in ("TYPE_CHECKING", "IS_FB_ENVIRONMENT"):
                todo.extend(s.orelse)
            else:
                todo.extend(s.body + s.orelse)
        elif isinstance(s, ast.Try):
            todo.extend(s.body + s.orelse + s.finalbody + [x for h in s.handlers for x in h.body])
        elif isinstance(s, (ast.With, ast.ClassDef)):
            todo.extend(s.body)
        elif isinstance(s, ast.Import):
            out.extend(a.name for a in s.names)
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ""
            if s.level:
                pkg = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                pkg = pkg[: len(pkg) - (s.level - 1)]
                base = ".".join(pkg + ([s.module] if s.module else []))
            out.append(base)
            out.extend(base + "." + a.name for a in s.names if a.name != "*")
    return out


def abstract(ix, cls):
    """names that stay abstract in the class"""
    out = set()
    for c in reversed(ix.mro(cls)):
        for n, f in c.methods.items():
            (out.add if f.has("abstractmethod", "abstractproperty") else out.discard)(n)
        for n in c.attrs:
            out.discard(n)
    return out


def registry_name(ix, cls):
    for c in ix.mro(cls):
        v = c.attrs.get("__registry_name__")
        if v is not None:
            return v.value if isinstance(v, ast.Constant) else ast.unparse(v)
    return cls.name


def registries(cx):
    """what a union offers: every concrete class of its registry is defined before the union freezes it, under a name of its own"""
    ix = cx.ix
    roots, unions = [], []
    for m in ix.all_modules():
        for c in m.syms.values():
            if not isinstance(c, Class):
                continue
            if any(k.arg == "metaclass" and deco_name(k.value).split(".")[-1] == "RegistryMeta" for k in c.node.keywords):
                roots.append(c)
            for d in c.node.decorator_list:
                if isinstance(d, ast.Call) and deco_name(d.func).endswith(".fill_union"):
                    unions.append((c, ix.resolve_expr_class(m, d.func.value)))
    cx.need(len(roots) > 5 and len(unions) > 5, "registries and unions")
    cx.coverage["registries"] = len(roots)
    cx.coverage["unions"] = len(unions)
    members = 0
    for root in sorted(roots, key=lambda c: c.qual):
        subs = [c for c in ix.subclasses(root) if c is not root and not abstract(ix, c)]
        names = {}
        for c in subs:
            if registry_name(ix, c) == root.name:
                continue
            names.setdefault(registry_name(ix, c), []).append(c)
        members += len(subs)
        for n, cs in sorted(names.items()):
            cx.fact("registered names are unique", root.qual, n, len(cs) == 1, "claimed by " + ", ".join(c.qual for c in cs),
                    "%s:%d" % (cs[-1].module.relpath, cs[-1].node.lineno))
        for u, r in unions:
            if r is not root:
                continue
            have = imported(ix, u.module.name, {})
            for c in subs:
                cx.fact("a union's module imports every class of its registry", u.qual, c.qual, c.module.name in have,
                        "%s is not imported before the registry is frozen" % c.module.name, "%s:%d" % (u.module.relpath, u.node.lineno))
    cx.coverage["registered classes"] = members
