"""Local names for containers reached through an object are read as the path they stand for.

    counts = self.values[action]; counts.append(x)      is      self.values[action].append(x)

The local is replaced when it is bound once, every use lies behind the binding in the same block, something is changed through it, and
nothing in between rebinds a name, an attribute or an element the path goes through: then both spellings denote the same object."""
import ast
import copy

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
CHANGES = {"append", "extend", "insert", "pop", "clear", "update", "remove", "sort", "setdefault", "popleft", "appendleft", "reverse"}
READS = {"get", "items", "keys", "values", "copy", "index", "count"}


def _path(e):
    """names and attributes a path goes through, or None"""
    if isinstance(e, ast.Name):
        return {e.id}, set()
    if isinstance(e, ast.Attribute):
        r = _path(e.value)
        return r and (r[0], r[1] | {e.attr})
    if isinstance(e, ast.Subscript):
        r = _path(e.value)
        k = e.slice
        if isinstance(k, ast.Constant):
            return r
        q = _path(k)
        return r and q and (r[0] | q[0], r[1] | q[1])
    return None


def _prefixes(e):
    out = []
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        out.append(e)
        e = e.value
    return out


def _root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def _binds(comp, name):
    return any(isinstance(x, ast.Name) and x.id == name for g in comp.generators for x in ast.walk(g.target))


def _walk(node, name):
    """every node in the scope where name means the local (comprehensions that bind the name for themselves left out)"""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, COMPS) and _binds(n, name):
            todo.append(n.generators[0].iter)
        else:
            todo.extend(ast.iter_child_nodes(n))


def _stores(nodes, name):
    return [n for s in nodes for n in _walk(s, name) if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load)]


class Module:
    def __init__(self, tree):
        self.tree = tree
        self.defs = {n.name for n in ast.walk(tree) if isinstance(n, FUNCS)}
        self.rebound = {}  # attribute -> functions that assign it
        for f in ast.walk(tree):
            if isinstance(f, FUNCS) and f.name != "__init__":
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self.rebound.setdefault(n.attr, set()).add(f)

    def run(self):
        for f in [n for n in ast.walk(self.tree) if isinstance(n, FUNCS)]:
            self.function(f)
        return self.tree

    def function(self, f):
        again = True
        while again:
            again = False
            for block in _blocks(f):
                for i, s in enumerate(block):
                    if self.candidate(f, s) and self.fits(f, block, i, s):
                        name, path = s.targets[0].id, s.value
                        for t in block[i + 1:]:
                            _Sub(name, path).visit(t)
                        del block[i]
                        if not block:
                            block.append(ast.copy_location(ast.Pass(), s))
                        again = True
                        break
                if again:
                    break

    @staticmethod
    def candidate(f, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Attribute, ast.Subscript)) and _path(s.value) is not None

    def fits(self, f, block, i, s):
        name, path = s.targets[0].id, s.value
        region = block[i + 1:]
        names, attrs = _path(path)
        if attrs & self.defs or name in names:
            return False
        if len(_stores([f], name)) != 1 or any(a.arg == name for n in ast.walk(f) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs + n.posonlyargs):
            return False
        uses = [n for n in _walk(f, name) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        inside = [n for t in region for n in _walk(t, name) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        if not uses or len(uses) != len(inside):
            return False
        changed = False
        pre = {ast.unparse(p) for p in _prefixes(path)}
        strict = {ast.unparse(p) for p in _prefixes(path)[1:]}
        whole = ast.unparse(path)
        calls = False
        for t in region:
            for n in _walk(t, name):
                if isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
                    return False
                if isinstance(n, ast.Name) and n.id in names and not isinstance(n.ctx, ast.Load):
                    return False
                if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                    r = _root(n)
                    if isinstance(r, ast.Name) and r.id == name:
                        # (an element picked by a variable key may be a copy: then stores into it stay there)
                        changed = changed or isinstance(n, ast.Subscript) and (isinstance(path, ast.Attribute) or isinstance(path.slice, ast.Constant))
                    elif ast.unparse(n) in pre or isinstance(n, ast.Subscript) and ast.unparse(n.value) in strict:
                        return False
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    r = _root(n.func)
                    if isinstance(r, ast.Name) and r.id == name:
                        changed = changed or n.func.attr in CHANGES
                    elif ast.unparse(n.func.value) in strict and isinstance(n.func.value, (ast.Subscript, ast.Attribute)) and n.func.attr not in READS:
                        return False
                    elif isinstance(r, ast.Name) and r.id in ("self", "cls") and n.func.value is r:
                        calls = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.defs:
                    calls = True
        if not changed:
            return False
        if calls and any(self.rebound.get(a, set()) - {f} for a in attrs):
            return False
        return True


class _Sub(ast.NodeTransformer):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def visit(self, n):
        if isinstance(n, COMPS) and _binds(n, self.name):
            n.generators[0].iter = self.visit(n.generators[0].iter)
            return n
        return super().visit(n)

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            p = copy.deepcopy(self.path)
            for x in ast.walk(p):
                if hasattr(x, "lineno"):
                    ast.copy_location(x, n)
            return p
        return n


def _blocks(f):
    out = []
    for n in ast.walk(f):
        for k in ("body", "orelse", "finalbody"):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
    return out


def undo(tree):
    return Module(tree).run()
