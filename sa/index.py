"""Program index: modules, symbols, classes (with linearised bases), functions.  Pure syntax; nothing is imported."""
import ast
import copy
import os

from . import alias, canon


class AnalysisBroken(Exception):
    """an anchor of the analysis is gone or unreadable: the check gives no verdict"""


class Func:
    def __init__(self, node, module, cls=None, qual=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        decos = []
        for d in node.decorator_list:
            decos.append(d)
        self.decos = decos
        self.deconames = [deco_name(d) for d in decos]
        self.is_gen = _has_yield(node)

    @property
    def name(self):
        return self.node.name

    def has(self, *names):
        return any(n.split(".")[-1] in names or n in names for n in self.deconames)

    @property
    def is_static(self):
        return self.has("staticmethod")

    @property
    def is_class(self):
        return self.has("classmethod")

    @property
    def is_property(self):
        return self.has("property", "lazy_property", "cached_property", "abstractproperty")

    @property
    def rebinds(self):
        """names the body gives another value"""
        r = self.__dict__.get("_rebinds")
        if r is None:
            r = self._rebinds = {n.id for s in self.node.body for n in ast.walk(s) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        return r

    @property
    def nograd(self):
        return any(n.endswith("no_grad") for n in self.deconames)

    def loc(self, node=None):
        return "%s:%d" % (self.module.relpath, (node or self.node).lineno)


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return ".".join(reversed(parts))


def _fb_test(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = _fb_test(t.operand)
        return None if r is None else not r
    if isinstance(t, ast.Name) and t.id == "IS_FB_ENVIRONMENT":
        return False
    return None


def _has_yield(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        st.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.qual = qual
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.fields = []  # annotated names, in order: (name, annotation, default)
        self.nested = {}
        self.deconames = [deco_name(d) for d in node.decorator_list]
        body = list(node.body)
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, module, self, qual + "." + s.name)
                if any(n.endswith(".setter") for n in f.deconames):
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if not (isinstance(s.annotation, ast.Subscript) and deco_name(s.annotation.value).endswith("ClassVar")):
                    self.fields.append((s.target.id, s.annotation, s.value))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self.nested[s.name] = Class(s, module, qual + "." + s.name)

    @property
    def name(self):
        return self.node.name


class Module:
    def __init__(self, name, path, relpath, tree):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.syms = {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._collect(tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.syms[s.name] = Func(s, self, None, self.name + "." + s.name)
            elif isinstance(s, ast.ClassDef):
                c = Class(s, self, self.name + "." + s.name)
                # conditional re-definition: keep the richer one
                old = self.syms.get(s.name)
                if isinstance(old, Class) and len(old.node.body) > len(s.body):
                    continue
                self.syms[s.name] = c
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.syms[a.asname] = ("import", a.name, None)
                    else:
                        self.syms[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pkg = self.name.split(".") if self.is_pkg else self.name.split(".")[:-1]
                    pkg = pkg[: len(pkg) - (s.level - 1)]
                    base = ".".join(pkg + ([s.module] if s.module else []))
                for a in s.names:
                    # conditional imports: proprietary variants are not part of the tree
                    if base.startswith("reagent.fb") and isinstance(self.syms.get(a.asname or a.name), tuple):
                        continue
                    self.syms[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.syms[t.id] = ("assign", s.value, None)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.syms[s.target.id] = ("assign", s.value, None)
            elif isinstance(s, ast.If):
                fb = _fb_test(s.test)  # the proprietary environment is never this tree
                if fb is not False:
                    self._collect(s.body)
                if fb is not True:
                    self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._collect(h.body)
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.With):
                self._collect(s.body)


class Index:
    def __init__(self, root, packages=("reagent",), extra=None):
        self.root = root
        self.packages = packages
        self.extra = extra or {}  # name -> dir for spec modules
        self.mods = {}
        self.overrides = {}  # module name -> ast tree (in-memory variants)
        self._mro = {}
        self.parsed_files = 0
        self.renamed = None  # identifiers read under the name they had when the rules were written

    def _undo(self, name, tree):
        if self.renamed is None:
            self.renamed = {}
            base = canon.load()
            if base is not None:
                trees = []
                for dp, dn, fn in os.walk(os.path.join(self.root, "reagent")):
                    for f in sorted(fn):
                        if f.endswith(".py"):
                            n = os.path.relpath(os.path.join(dp, f), self.root)[:-3].replace(os.sep, ".")
                            n = n[:-9] if n.endswith(".__init__") else n
                            if ".test." in n or ".tests." in n:
                                continue
                            t = self.overrides.get(n)
                            if t is None:
                                try:
                                    with open(os.path.join(dp, f), encoding="utf-8") as h:
                                        t = ast.parse(h.read())
                                except SyntaxError:
                                    continue
                            trees.append((n, t))
                self.renamed = canon.renames(trees, base)
        if self.renamed:
            tree = canon.Undo(self.renamed).visit(copy.deepcopy(tree) if name in self.overrides else tree)
        return tree

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = None
        top = name.split(".")[0]
        base = None
        if top in self.packages:
            base = self.root
        elif top in self.extra:
            base = self.extra[top]
        if base is not None:
            p = os.path.join(base, *name.split("."))
            for cand in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.isfile(cand):
                    if name in self.overrides:
                        tree = self.overrides[name]
                    else:
                        with open(cand, encoding="utf-8") as f:
                            src = f.read()
                        try:
                            tree = ast.parse(src)
                        except SyntaxError as e:
                            raise AnalysisBroken("cannot parse %s: %s" % (cand, e))
                    if top in self.packages:
                        tree = self._undo(name, tree)
                        tree = alias.undo(copy.deepcopy(tree) if name in self.overrides else tree)
                    self.parsed_files += 1
                    m = Module(name, cand, os.path.relpath(cand, base), tree)
                    break
        self.mods[name] = m
        return m

    def all_modules(self, pkg="reagent"):
        out = []
        for dp, dn, fn in os.walk(os.path.join(self.root, pkg)):
            dn.sort()
            rel = os.path.relpath(dp, self.root).replace(os.sep, ".")
            if ".test" in "." + rel and (".test." in rel + "." or ".tests." in rel + "."):
                continue
            for f in sorted(fn):
                if f.endswith(".py"):
                    name = rel if f == "__init__.py" else rel + "." + f[:-3]
                    m = self.module(name)
                    if m:
                        out.append(m)
        return out

    def resolve_in(self, module, name, depth=0):
        """-> Func | Class | ('mod', dotted) | ('assign', expr, module) | ('ext', dotted) | None"""
        if depth > 12:
            return None
        s = module.syms.get(name)
        if s is None:
            return None
        if isinstance(s, (Func, Class)):
            return s
        kind, a, b = s
        if kind == "import":
            return ("mod", a)
        if kind == "assign":
            return ("assign", a, module)
        return self.resolve_dotted(a, b, depth + 1)

    def resolve_dotted(self, base, name, depth=0):
        m = self.module(base)
        if m is not None:
            if name in m.syms:
                r = self.resolve_in(m, name, depth + 1)
                if r is not None:
                    return r
            sub = self.module(base + "." + name)
            if sub is not None:
                return ("mod", base + "." + name)
            return ("ext", base + "." + name)
        sub = self.module(base + "." + name) if base.split(".")[0] in self.packages else None
        if sub is not None:
            return ("mod", base + "." + name)
        return ("ext", base + "." + name)

    def get(self, qual):
        """'pkg.mod.Class.method' or 'pkg.mod.func' -> Func/Class"""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = self.module(".".join(parts[:i]))
            if m is not None:
                cur = None
                rest = parts[i:]
                if not rest:
                    return m
                cur = self.resolve_in(m, rest[0])
                for r in rest[1:]:
                    if isinstance(cur, Class):
                        nxt = self.find_method(cur, r) or cur.nested.get(r)
                        cur = nxt
                    else:
                        cur = None
                return cur
        return None

    def moved(self, qual):
        """a module-level function or a method of a module-level class that lives in another module under the same name"""
        parts = qual.split(".")
        for k in (1, 2):
            if self.module(".".join(parts[:-k])) is None:
                continue
            hits = []
            for m in self.all_modules():
                m = m if isinstance(m, Module) else self.module(m)
                if m is None or ".test" in m.name:
                    continue
                if any(getattr(n, "name", None) == parts[-k] for n in m.tree.body):
                    hits.append(m.name)
            if len(hits) == 1:
                return self.get(".".join([hits[0]] + parts[-k:]))
        return None

    def need(self, qual):
        r = self.get(qual) or self.moved(qual)
        if r is None or not isinstance(r, (Func, Class)):
            raise AnalysisBroken("anchor not found: " + qual)
        return r

    def resolve_expr_class(self, module, expr):
        """class denoted by a base-class / annotation expression"""
        if isinstance(expr, ast.Subscript):
            return self.resolve_expr_class(module, expr.value)
        if isinstance(expr, ast.Name):
            r = self.resolve_in(module, expr.id)
            return r if isinstance(r, Class) else None
        if isinstance(expr, ast.Attribute):
            parts = []
            e = expr
            while isinstance(e, ast.Attribute):
                parts.append(e.attr)
                e = e.value
            if isinstance(e, ast.Name):
                r = self.resolve_in(module, e.id)
                for p in reversed(parts):
                    if isinstance(r, tuple) and r[0] in ("mod", "ext"):
                        r = self.resolve_dotted(r[1], p)
                    elif isinstance(r, Class):
                        r = r.nested.get(p)
                    else:
                        return None
                return r if isinstance(r, Class) else None
        if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
            try:
                return self.resolve_expr_class(module, ast.parse(expr.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            c = self.resolve_expr_class(cls.module, b)
            if c is not None:
                out.append(c)
        return out

    def basenames(self, cls):
        """names of all bases including external ones, transitively"""
        out = set()
        for c in self.mro(cls):
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                out.add(deco_name(b))
        return out

    def mro(self, cls):
        r = self._mro.get(cls.qual)
        if r is not None and r[0] is cls:
            return r
        seqs = [list(self.mro(b)) for b in self.bases(cls)] + [list(self.bases(cls))]
        res = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            for s in seqs:
                if s and s[0] is cand:
                    del s[0]
        self._mro[cls.qual] = res
        return res

    def find_method(self, cls, name, after=None):
        ms = self.mro(cls)
        if after is not None:
            ms = ms[ms.index(after) + 1:] if after in ms else []
        for c in ms:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_enum(self, cls):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag") for b in self.basenames(cls))

    def is_record(self, cls):
        for c in self.mro(cls):
            if any(d.split(".")[-1].endswith("dataclass") for d in c.deconames):
                return True
        return any(b.split(".")[-1] == "NamedTuple" for b in self.basenames(cls))

    def record_fields(self, cls):
        """[(name, default expr or None, module)] in constructor order"""
        out = {}
        for c in reversed(self.mro(cls)):
            isdc = any(d.split(".")[-1].endswith("dataclass") for d in c.deconames) or any(
                (b.id if isinstance(b, ast.Name) else getattr(b, "attr", "")) == "NamedTuple" for b in c.node.bases
            )
            if not isdc:
                continue
            for n, ann, d in c.fields:
                if n in out:
                    out[n] = (n, d, c.module)
                else:
                    out[n] = (n, d, c.module)
        return list(out.values())

    def subclasses(self, cls, mods=None):
        out = []
        for m in mods or self.all_modules():
            for s in m.syms.values():
                if isinstance(s, Class) and s is not cls and cls in self.mro(s):
                    out.append(s)
        return out
