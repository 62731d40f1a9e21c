"""In-memory source variants: behaviour-preserving rewrites and behaviour-changing mutations of analysed functions."""
import ast
import copy
import random

PURE_CALLS = False


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n


def fix(tree):
    ast.fix_missing_locations(tree)
    return tree


def own_nodes(fn):
    """nodes of fn, without nested functions/classes/lambdas"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def has_nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)) for n in ast.walk(fn) if n is not fn)


# ---------------------------------------------------------------- behaviour preserving


def r_rename(tree):
    for fn in functions(tree):
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        for x in (fn.args.vararg, fn.args.kwarg):
            if x:
                params.add(x.arg)
        inner_params = set()
        nested = [n for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda))]
        for n in nested:
            inner_params |= {a.arg for a in n.args.args}
            if isinstance(n, ast.FunctionDef):
                inner_params.add(n.name)
        glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        imps = {(a.asname or a.name.split(".")[0]) for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        exc = {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name}
        names = {n.id for n in own_nodes(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names -= params | inner_params | glob | imps | exc
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "eval", "exec") for n in ast.walk(fn)):
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = "rn_" + n.id
    return tree


class _Temps(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Assign(self, node):
        if len(node.targets) == 1 and not isinstance(node.value, (ast.Constant, ast.Name, ast.Yield)):
            self.n += 1
            t = "tmp_%d" % self.n
            return [ast.Assign([ast.Name(t, ast.Store())], node.value), ast.Assign(node.targets, ast.Name(t, ast.Load()))]
        return node

    def visit_Return(self, node):
        if node.value is not None and not isinstance(node.value, ast.Constant):
            self.n += 1
            t = "tmp_%d" % self.n
            return [ast.Assign([ast.Name(t, ast.Store())], node.value), ast.Return(ast.Name(t, ast.Load()))]
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in node.body]
        return node


def r_temps(tree):
    t = _Temps()
    tree.body = [t.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in tree.body]
    return tree


def r_noop(tree):
    for fn in functions(tree):
        i = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(i, ast.Assign([ast.Name("_unused_local", ast.Store())], ast.Constant(0)))
        fn.body.append(ast.Pass()) if not isinstance(fn.body[-1], (ast.Return, ast.Raise)) else None
    return tree


class _Invert(ast.NodeTransformer):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


def r_invert(tree):
    return _Invert().visit(tree)


class _Swap(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mult):
            return ast.BinOp(node.right, node.op, node.left)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            o = m.get(type(node.ops[0]))
            if o is not None:
                return ast.Compare(node.comparators[0], [o()], [node.left])
        return node


def r_swap(tree):
    return _Swap().visit(tree)


class _EarlyReturn(ast.NodeTransformer):
    """if c: ...return  / rest   ->  if c: ... return  else: rest"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self.fold(node.body)
        return node

    def fold(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = self.fold(body[i + 1:])
                return body[: i + 1]
        return body


def r_early(tree):
    return _EarlyReturn().visit(tree)


class _DeElse(ast.NodeTransformer):
    """if c: return a else: return b   ->   if c: return a / return b"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        out = []
        for s in node.body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                e = s.orelse
                s.orelse = []
                out.append(s)
                out.extend(e)
            else:
                out.append(s)
        node.body = out
        return node


def r_deelse(tree):
    return _DeElse().visit(tree)


class _CompToLoop(ast.NodeTransformer):
    """x = [e for t in it if c]  ->  loop with append"""

    def __init__(self):
        self.n = 0

    def visit_Assign(self, node):
        v = node.value
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
            g = v.generators[0]
            self.n += 1
            nm = "acc_%d" % self.n
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [v.elt], []))
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            return [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())),
                    ast.For(g.target, g.iter, [body], [], None),
                    ast.Assign(node.targets, ast.Name(nm, ast.Load()))]
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in node.body]
        return node


def r_comp(tree):
    t = _CompToLoop()
    tree.body = [t.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in tree.body]
    return tree


class _LoopToComp(ast.NodeTransformer):
    """x = [] ; for t in it: x.append(e)  ->  x = [e for t in it]"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        b = node.body
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if (i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and len(s.targets) == 1
                    and isinstance(s.targets[0], ast.Name) and isinstance(b[i + 1], ast.For) and len(b[i + 1].body) == 1):
                f = b[i + 1]
                e = f.body[0]
                if (isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute)
                        and e.value.func.attr == "append" and isinstance(e.value.func.value, ast.Name)
                        and e.value.func.value.id == s.targets[0].id):
                    out.append(ast.Assign(s.targets, ast.ListComp(e.value.args[0], [ast.comprehension(f.target, f.iter, [], 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        node.body = out
        return node


def r_loopcomp(tree):
    return _LoopToComp().visit(tree)


def _names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def _simple(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(
        isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.NamedExpr)) and not _safe_call(x) for x in ast.walk(s.value))


SAFE = {"sum", "mean", "log", "exp", "full_like", "zeros", "ones", "float", "reshape", "view", "clamp", "softmax", "gather",
        "len", "unsqueeze", "squeeze", "where", "argmax", "size", "arange", "range", "zip", "zeros_like", "ones_like"}


def _safe_call(x):
    if not isinstance(x, ast.Call):
        return False
    f = x.func
    nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
    return nm in SAFE


def _mutating(s):
    return False


class _Reorder(ast.NodeTransformer):
    def body(self, b):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if _simple(x) and _simple(y):
                wx, wy = _names(x, ast.Store), _names(y, ast.Store)
                rx, ry = _names(x, ast.Load), _names(y, ast.Load)
                if not (wx & (ry | wy)) and not (wy & rx):
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse"):
            v = getattr(node, f, None)
            if isinstance(v, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                self.body(v)
        return node


def r_reorder(tree):
    return _Reorder().visit(tree)


_XTR = [0]


def r_extract(tree):
    """extract right-hand sides of assignments into helper methods / functions"""
    cnt = _XTR

    def do(fn, cls, container):
        if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fn.decorator_list):
            return []
        nested = [n for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda))]
        if nested:
            return []
        params = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
        if cls is not None and (not params or params[0] != "self"):
            return []
        locs = set(params) | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for x in (fn.args.vararg, fn.args.kwarg):
            if x:
                locs.add(x.arg)
        locs |= {(a.asname or a.name.split(".")[0]) for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        new = []

        def visit(body):
            for s in body:
                for f in ("body", "orelse", "finalbody"):
                    v = getattr(s, f, None)
                    if isinstance(v, list):
                        visit(v)
                if isinstance(s, ast.Assign) and not isinstance(s.value, (ast.Constant, ast.Name, ast.Attribute)):
                    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) or
                           isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals")
                           for x in ast.walk(s.value)):
                        continue
                    bound = set()
                    for x in ast.walk(s.value):
                        if isinstance(x, ast.comprehension):
                            bound |= _names(x.target, ast.Store)
                    free = sorted((_names(s.value, ast.Load) & locs) - bound - {"self"})
                    if (_names(s.value, ast.Load) & locs) & bound:
                        continue
                    cnt[0] += 1
                    nm = "_xtr_%d" % cnt[0]
                    args = (["self"] if cls is not None else []) + free
                    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []),
                                        [ast.Return(s.value)], [], None)
                    h.type_params = []
                    callee = ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()) if cls is not None else ast.Name(nm, ast.Load())
                    s.value = ast.Call(callee, [ast.Name(a, ast.Load()) for a in free], [])
                    new.append(h)

        visit(fn.body)
        return new

    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        if any("script" in ast.dump(d) for d in c.decorator_list):
            continue
        add = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef):
                add += do(f, c, c.body)
        c.body.extend(add)
    add = []
    for f in tree.body:
        if isinstance(f, ast.FunctionDef):
            add += do(f, None, tree.body)
    tree.body.extend(add)
    return tree


class _Aug(ast.NodeTransformer):
    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name) and isinstance(node.op, (ast.Add, ast.Sub)) and isinstance(node.value, ast.Constant):
            return ast.Assign([node.target], ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op, node.value))
        return node


def r_aug(tree):
    return _Aug().visit(tree)


class _IsNone(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.Is()], node.comparators))
        return node


def r_isnone(tree):
    return _IsNone().visit(tree)


class _IfExpStmt(ast.NodeTransformer):
    def visit_Assign(self, node):
        if isinstance(node.value, ast.IfExp):
            a = copy.deepcopy(node)
            b = copy.deepcopy(node)
            a.value = node.value.body
            b.value = node.value.orelse
            return ast.If(node.value.test, [a], [b])
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in node.body]
        return node

    def visit_Return(self, node):
        if isinstance(node.value, ast.IfExp):
            return ast.If(node.value.test, [ast.Return(node.value.body)], [ast.Return(node.value.orelse)])
        return node


def r_ifexp(tree):
    t = _IfExpStmt()
    tree.body = [t.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in tree.body]
    return tree


class _ForWhile(ast.NodeTransformer):
    """for i in range(n): ...  ->  while loop;   for x in xs  ->  for i in range(len(xs))"""

    def __init__(self):
        self.n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and
                isinstance(node.target, ast.Tuple) and len(node.target.elts) == 2 and isinstance(node.target.elts[0], ast.Name)
                and isinstance(it.args[0], ast.Name) and not node.orelse):
            seq = it.args[0].id
            if seq in {x for s in node.body for x in _names(s, ast.Store)}:
                return node
            i = node.target.elts[0]
            return ast.For(i, ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name(seq, ast.Load())], [])], []),
                           [ast.Assign([node.target.elts[1]], ast.Subscript(ast.Name(seq, ast.Load()), ast.Name(i.id, ast.Load()), ast.Load()))] + node.body,
                           [], None)
        return node


def r_enum(tree):
    return _ForWhile().visit(tree)


REWRITES = [r_rename, r_temps, r_noop, r_invert, r_swap, r_early, r_deelse, r_comp, r_loopcomp, r_reorder, r_extract, r_aug,
            r_isnone, r_ifexp, r_enum]


# ---------------------------------------------------------------- mutations


def mutants(fn):
    """yield (description, apply(fn_copy_nodes)) for the function node; nodes addressed by walk order"""
    nodes = list(ast.walk(fn))
    attrs = sorted({n.attr for n in nodes if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)})
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Assert) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in (
            "logger.info", "logger.warning", "self.log", "self.reporter.log", "self.register_buffer", "super().__init__", "print"
        ):
            skip.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(n.op) in m:
                yield "L%d binop %s" % (ln, type(n.op).__name__), i, ("binop", m[type(n.op)])
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                 ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            yield "L%d compare %s" % (ln, type(n.ops[0]).__name__), i, ("cmp", m[type(n.ops[0])])
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield "L%d flip %s" % (ln, n.value), i, ("const", not n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield "L%d const %s" % (ln, n.value), i, ("const", n.value + 1)
        elif isinstance(n, ast.If):
            yield "L%d negate if" % ln, i, ("negate",)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "detach":
            yield "L%d drop detach" % ln, i, ("dropcall",)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield "L%d drop unary" % ln, i, ("unary",)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr.startswith("next_") and n.attr[5:] in attrs:
            yield "L%d %s->%s" % (ln, n.attr, n.attr[5:]), i, ("attr", n.attr[5:])
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr.endswith("_target") and n.attr[:-7] in attrs:
            yield "L%d %s->%s" % (ln, n.attr, n.attr[:-7]), i, ("attr", n.attr[:-7])
        if isinstance(n, ast.Call) and n.keywords:
            for k, kw in enumerate(n.keywords):
                if kw.arg in ("keepdim", "dtype", "device", None):
                    continue
                yield "L%d drop kw %s" % (ln, kw.arg), i, ("dropkw", k)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            yield "L%d swap args" % ln, i, ("swapargs",)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, ast.ClassDef):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and len(b) > 1:
                        yield "L%d delete %s" % (s.lineno, ast.unparse(s)[:60]), i, ("delstmt", f, j)


def apply_mutant(fn, i, act):
    nodes = list(ast.walk(fn))
    n = nodes[i]
    k = act[0]
    if k == "binop":
        n.op = act[1]()
    elif k == "cmp":
        n.ops = [act[1]()]
    elif k == "const":
        n.value = act[1]
    elif k == "negate":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == "dropcall":
        _replace(fn, n, n.func.value)
    elif k == "unary":
        _replace(fn, n, n.operand)
    elif k == "attr":
        n.attr = act[1]
    elif k == "dropkw":
        del n.keywords[act[1]]
    elif k == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "delstmt":
        del getattr(n, act[1])[act[2]]


def _replace(root, old, new):
    for p in ast.walk(root):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if x is old:
                        v[j] = new
                        return
