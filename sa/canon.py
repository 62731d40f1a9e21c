"""Consistent renaming: undo renames of methods, attributes and functions before anything is compared.

names.json lists, per module and class, the names declared when the rules were written. When such a name no longer occurs anywhere in the
package and a new one that did not exist stands in its place (same class or module, most similar body), every occurrence of the new
identifier in the package is read as the old one. Replacing a fresh identifier everywhere by one that does not occur preserves the
meaning of the program, whichever pair is chosen; a wrong choice can only leave a rule without its anchor. Public methods and functions
are left alone: their names are part of the behaviour (framework hooks, user code)."""
import ast
import copy
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "names.json")
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def idents(tree, out):
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, FUNCS + (ast.ClassDef,)):
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.keyword) and n.arg:
            out.add(n.arg)
        elif isinstance(n, ast.alias):
            out.update(n.name.split("."))
            if n.asname:
                out.add(n.asname)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            out.add(n.value)
    return out


def _words(n):
    r = {}
    for x in ast.walk(n):
        w = None
        if isinstance(x, ast.Name):
            w = x.id
        elif isinstance(x, ast.Attribute):
            w = x.attr
        elif isinstance(x, ast.Constant):
            w = repr(x.value)[:40]
        if w is not None:
            r[w] = r.get(w, 0) + 1
    return r


def scopes(name, tree):
    """{scope: {member: (kind, position, words)}}"""
    out = {}

    def put(scope, member, kind, node):
        d = out.setdefault(scope, {})
        if member not in d and not (member.startswith("__") and member.endswith("__")):
            d[member] = [kind, len(d), _words(node)]

    def visit(body, scope, incls):
        for s in body:
            if isinstance(s, FUNCS):
                put(scope, s.name, "def", s)
                if incls:
                    for x in ast.walk(s):
                        if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                                for y in ast.walk(t):
                                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id in ("self", "cls"):
                                        put(scope, y.attr, "attr", x.value or t)
            elif isinstance(s, ast.ClassDef):
                visit(s.body, scope + "." + s.name, True)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                visit([y for f in ("body", "orelse", "finalbody") for y in getattr(s, f, [])], scope, incls)
            elif isinstance(s, ast.Assign) and not incls:
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        put(scope, t.id, "var", s.value)

    visit(tree.body, name, False)
    return out


def snapshot(trees):
    ids, sc = set(), {}
    for name, tree in trees:
        idents(tree, ids)
        sc.update(scopes(name, tree))
    return {"identifiers": sorted(ids), "sources": helpers(trees), "scopes": {k: {m: v for m, v in d.items()} for k, d in sorted(sc.items())}}


def helpers(trees):
    """{qualified name: source} of private methods and functions"""
    out = {}

    def visit(body, scope):
        for s in body:
            if isinstance(s, FUNCS) and s.name.startswith("_") and not s.name.startswith("__"):
                out[scope + "." + s.name] = ast.unparse(s)
            elif isinstance(s, ast.ClassDef):
                visit(s.body, scope + "." + s.name)

    for name, tree in trees:
        visit(tree.body, name)
    return out


def ghosts(ix):
    """helpers that existed when the rules were written and have been inlined away: {module: tree with the helper back}"""
    base = load()
    ids = set()
    mods = {m.name: m.tree for m in ix.all_modules()}
    for t in mods.values():
        idents(t, ids)
    out, names = {}, set()
    for q, src in base["sources"].items():
        scope, n = q.rsplit(".", 1)
        if n in ids:
            continue
        m, cls = (scope, None) if scope in mods else (scope.rsplit(".", 1) + [None])[:2]
        if m not in mods:
            continue
        tree = out.get(m)
        if tree is None:
            tree = out[m] = copy.deepcopy(mods[m])
        body = tree.body if cls is None else next((s.body for s in tree.body if isinstance(s, ast.ClassDef) and s.name == cls), None)
        if body is not None:
            body.append(ast.parse(src).body[0])
            names.add(n)
    return names, out


def similarity(a, b, ren):
    n = sum(min(v, b.get(ren.get(k, k), 0)) for k, v in a.items())
    m = max(sum(a.values()), sum(b.values()), 1)
    return n / m


def renames(trees, base):
    """{new identifier: old identifier}"""
    ids, sc = set(), {}
    for name, tree in trees:
        idents(tree, ids)
    old_ids = set(base["identifiers"])
    gone = {m for d in base["scopes"].values() for m in d if m not in ids}
    fresh = ids - old_ids
    if not gone or not fresh:
        return {}
    for name, tree in trees:
        sc.update(scopes(name, tree))
    cand = []
    for s, d in base["scopes"].items():
        now = sc.get(s)
        if not now:
            continue
        g = sorted((m for m in d if m in gone), key=lambda x: d[x][1])
        f = [m for m in now if m in fresh]
        for m in g:
            for k in f:
                if d[m][0] == now[k][0] and (m.startswith("_") or d[m][0] == "attr"):
                    sim = similarity(d[m][2], now[k][2], {})
                    gs = [x for x in g if d[x][0] == d[m][0]]
                    fs = sorted((x for x in f if now[x][0] == now[k][0]), key=lambda x: now[x][1])
                    alone = len(gs) == len(fs) and gs.index(m) == fs.index(k)
                    cand.append((-(sim + (0.5 if alone else 0)), abs(d[m][1] - now[k][1]), s, m, k))
    out, used = {}, set()
    for score, _, _, m, k in sorted(cand):
        if -score >= 0.4 and k not in out and m not in used:
            out[k] = m
            used.add(m)
    return out


class Undo(ast.NodeTransformer):
    def __init__(self, ren):
        self.r = ren

    def generic_visit(self, n):
        super().generic_visit(n)
        r = self.r
        if isinstance(n, ast.Name):
            n.id = r.get(n.id, n.id)
        elif isinstance(n, ast.Attribute):
            n.attr = r.get(n.attr, n.attr)
        elif isinstance(n, FUNCS + (ast.ClassDef,)):
            n.name = r.get(n.name, n.name)
        elif isinstance(n, (ast.arg, ast.keyword)) and n.arg:
            n.arg = r.get(n.arg, n.arg)
        elif isinstance(n, ast.alias):
            n.name = r.get(n.name, n.name)
            if n.asname:
                n.asname = r.get(n.asname, n.asname)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            n.names = [r.get(x, x) for x in n.names]
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in r:
            n.value = r[n.value]
        return n


def load():
    if not os.path.exists(PATH):
        return None
    with open(PATH) as f:
        return json.load(f)
