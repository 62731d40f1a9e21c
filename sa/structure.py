"""Case splitting on list-valued results, ownership of parameters, gradient reach."""
from . import driver as D
from . import ops as O
from . import terms as T
from .terms import FALSE, NONE, TRUE, Term, const, mk


def atom(c):
    while c.op in ("and", "or", "not", "ite"):
        c = c.args[0]
    return c


def _first_cond(t):
    """a condition deciding the shape of a list term"""
    if t.op == "ite":
        return t.args[0]
    if t.op == "concat":
        for x in t.args:
            c = _first_cond(x)
            if c is not None:
                return c
    return None


def cases(ts, limit=512):
    """[(path, list of element lists or None)] over the decisions that shape the list terms ts"""
    out = []

    def go(ts, path):
        if len(out) > limit:
            raise O.Budget()
        for t in ts:
            c = _first_cond(t)
            if c is not None:
                a = atom(c)
                for v in (True, False):
                    m = {a: const(v)}
                    go([T.subst(x, m) for x in ts], path + ((a, v),))
                return
        out.append((path, [elems(t) for t in ts]))

    go([O.strip(t) if False else t for t in ts], ())
    return out


def elems(t):
    if t.op in ("list", "tuple"):
        return list(t.args)
    if t.op == "concat":
        r = []
        for x in t.args:
            e = elems(x)
            if e is None:
                return None
            r += e
        return r
    return None


def show_path(path):
    return " and ".join(("" if v else "not ") + T.show(c, 7)[:120] for c, v in path) or "always"


def segments(t):
    """a parameter list as the sequence of its segments (`net.parameters()` calls, single parameters)"""
    if t.op == "concat":
        r = []
        for x in t.args:
            r += segments(x)
        return r
    if t.op in ("list", "tuple"):
        r = []
        for x in t.args:
            r.append(x)
        return r
    if t.op == "op" and t.args[0] in ("list", "tuple"):
        return segments(t.args[1][0])
    return [t]


def owner(seg):
    """network (or parameter) whose parameters a segment lists"""
    if seg.op == "call" and seg.args[0].op == "attr" and seg.args[0].args[1] == "parameters":
        return seg.args[0].args[0]
    return seg


def reach(t):
    """callees and parameters the value depends on through a differentiable path (value already gradnormed)"""
    out = set()
    seen = set()

    def callee(f):
        out.add(f)
        while isinstance(f, Term) and f.op == "attr":
            f = f.args[0]
            out.add(f)

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "detach" or x.op in ("cmp", "and", "or", "not", "len", "isinst", "all", "any"):
            return
        if x.op == "ite":
            go(x.args[1]), go(x.args[2])
            return
        if x.op == "call":
            callee(x.args[0])
        if x.op == "meth" and x.args[1]:
            callee(x.args[1][0])
        out.add(x)
        for c in T.children(x):
            go(c)

    go(t)
    return out


def is_placeholder(y):
    """the value of soft_update_result(): a zero created with requires_grad, not a loss"""
    return y.op == "call" and D.callname(y) == "soft_update_result"


def functions(m):
    """functions and methods of a module"""
    from .index import Class, Func
    out = []
    for x in m.syms.values():
        if isinstance(x, Func):
            out.append(x)
        elif isinstance(x, Class):
            out += [y for y in x.methods.values() if isinstance(y, Func)]
    return out
