"""Evaluates repository functions and reference definitions on the same symbolic inputs and compares observables."""
import ast
import os
import sys
import time

from . import ops as O
from . import terms as T
from .index import AnalysisBroken, Class, Func, Index
from .interp import Event, Interp, State, UNDEF, is_dict_annotation
from .ops import Budget, Equiv, canon, op
from .terms import FALSE, NONE, TRUE, Term, and_, const, ite, mk, not_, or_, sym

sys.setrecursionlimit(20000)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ normalisation of gradients and shapes

_gn = {}
_fz = {}


def frozen(t):
    """a call of (a method of) a target network: its parameters are never optimised, so a gradient barrier there is moot"""
    f = t.args[0]
    if t.op == "meth":
        f = t.args[1][0] if t.args[1] else None
    while isinstance(f, Term) and f.op == "attr":
        if f.args[1].endswith("_target"):
            return True
        f = f.args[0]
    return isinstance(f, Term) and f.op == "op" and f.args[0] == "copyof"


def _has_frozen(t):
    r = _fz.get(t)
    if r is None:
        r = t.op in ("call", "meth") and frozen(t) or any(_has_frozen(c) for c in T.children(t))
        _fz[t] = r
    return r


_lv = {}


def unmark(t):
    if t.op == "call":
        m = owned(t)
        if m is not None:
            return m[0]
    if t.op in ("list", "ite", "concat"):
        return T.rebuild(t, unmark)
    return t


def live(t, own):
    """t mentions a network or parameter named in own"""
    k = (t, own)
    r = _lv.get(k)
    if r is None:
        r = t.op == "attr" and t.args[1] in own or not (t.op == "op" and t.args[0] == "copyof") and any(live(c, own) for c in T.children(t))
        _lv[k] = r
    return r


def gradnorm(t, d=False, own=None):
    """push gradient barriers to the opaque calls they protect; own: names of the only networks whose gradient matters"""
    key = (t, d, own)
    r = _gn.get(key)
    if r is not None:
        return r
    r = _gradnorm(t, d, own)
    _gn[key] = r
    return r


def _gradnorm(t, d, own):
    o = t.op
    if o in ("call", "meth"):
        if frozen(t) or own is not None and not live(t, own):
            return mk("detach", O.strip(t))
    if own is None and not d and not (t.flags & T.F_DET) and not _has_frozen(t):
        return t
    if o == "attr" and own is not None and t.args[1] in own and d:
        return mk("detach", O.strip(t))
    if o == "attr" and not (t.args[0].op in ("sym", "fresh") or t.args[0].op == "attr" and t.args[0].args[0].op == "sym"):
        return mk("attr", gradnorm(t.args[0], d, own), t.args[1])
    if o in ("const", "sym", "enum", "func", "cls", "mod", "bv", "fresh", "attr"):
        return O.strip(t)
    if o == "detach":
        return gradnorm(t.args[0], True, own)
    if o in ("cmp", "and", "or", "not", "len", "isinst", "all", "any"):
        return O.strip(t)
    if o == "item":
        return O.item(gradnorm(t.args[0], d, own), O.strip(t.args[1]))
    if o == "setitem":
        return O.setitem(gradnorm(t.args[0], d, own), O.strip(t.args[1]), gradnorm(t.args[2], d, own))
    if o == "dictmap":
        return mk("dictmap", t.args[0], *[O.strip(x) for x in t.args[1:-1]], gradnorm(t.args[-1], d, own))
    if o in ("call", "meth", "nth"):
        if d:
            return mk("detach", O.strip(t))
        return T.rebuild(t, lambda x: gradnorm(x, False, own))
    if o == "ite":
        return ite(O.strip(t.args[0]), gradnorm(t.args[1], d, own), gradnorm(t.args[2], d, own))
    if o == "op":
        nm = t.args[0]
        if nm in O.NONDIFF:
            return O.strip(t)
        if nm == "gather":
            return op("gather", (gradnorm(t.args[1][0], d, own), O.strip(t.args[1][1])), t.args[2])
        if nm == "where":
            return op("where", (O.strip(t.args[1][0]), gradnorm(t.args[1][1], d, own), gradnorm(t.args[1][2], d, own)))
    return T.rebuild(t, lambda x: gradnorm(x, d, own))


def owned(t):
    """(loss, owner names) of a reference loss marked with specs.common.own"""
    if t.op == "call" and t.args[0].op == "func" and t.args[0].args[0] == "specs.common.own":
        a = t.args[1]
        return a[0], frozenset(x.args[0] for x in a[1:])
    return None


def has_owned(t):
    return any(owned(x) for x in T.subterms(t) if x.op == "call")


SHAPE = {"reshape", "unsqueeze", "squeeze", "flatten", "view_as", "expand", "expand_as", "T", "transpose", "permute",
         "broadcast_to", "repeat"}


def shapestrip(t, cnt):
    """remove shape-only operators; counts them in cnt[0]"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "op":
            nm, a, k = x.args
            if nm in ("reshape", "unsqueeze", "squeeze", "flatten", "view_as", "expand_as", "expand", "broadcast_to"):
                cnt[0] += 1
                r = go(a[0])
                memo[x] = r
                return r
            if any(kk == "keepdim" for kk, _ in k):
                cnt[0] += 1
                r = T.rebuild(op(nm, a, tuple((kk, v) for kk, v in k if kk != "keepdim")), go)
                memo[x] = r
                return r
        if x.op == "item" and x.args[1].op == "tuple" and any(z is NONE for z in x.args[1].args) and all(
            z is NONE or z.op == "slice" and all(w is NONE for w in z.args) or z is const(Ellipsis) for z in x.args[1].args
        ):
            cnt[0] += 1
            r = go(x.args[0])
            memo[x] = r
            return r
        r = T.rebuild(x, go)
        memo[x] = r
        return r

    return go(t)


# ------------------------------------------------------------------ comparison


class Verdict:
    def __init__(self, status, label, detail="", loc="", path=()):
        self.status, self.label, self.detail, self.loc, self.path = status, label, detail, loc, path

    def __repr__(self):
        return "%s %s @%s %s" % (self.status, self.label, self.loc, self.detail[:300])


def _askeys(fn, name):
    """the function asks its parameter for its keys or items"""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("keys", "items", "values") and not n.args
               and isinstance(n.func.value, ast.Name) and n.func.value.id == name for n in ast.walk(fn.node))


def _defaults(fn):
    a = fn.node.args
    ps = a.posonlyargs + a.args
    out = {x.arg: d for x, d in zip(ps[len(ps) - len(a.defaults):], a.defaults)}
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


class DCEquiv(Equiv):
    def __init__(self, dc=FALSE, budget=6000):
        super().__init__(budget)
        self.dc = dc

    def note(self, path, a, b):
        self.diff = (path,) + norm_owned(a, b)

    def eq(self, a, b, path=(), dc=None):
        dc = self.dc if dc is None else dc
        if a is b or dc is TRUE:
            return True
        key = (a, b, dc)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        ca, cb = O.cond_atoms(a), O.cond_atoms(b)
        cs = ca | cb
        if not cs and dc is not FALSE:
            cs = O.cond_atoms(dc) or _atoms(dc)
            sh = cs
        else:
            sh = ca & cb
        if not cs:
            r = leaf_equal(a, b) or contradictory(path)
            if not r:
                m = lengths(path)
                if m:
                    x, y = T.subst(a, m), T.subst(b, m)
                    r = (x is not a or y is not b) and leaf_equal(x, y)
            if not r and (a.op == "setitem") != (b.op == "setitem"):
                r = leaf_equal(noset(a, path), noset(b, path))
            if not r and self.diff is None:
                self.note(path, a, b)
        else:
            c = min(sh or cs, key=lambda x: (x.size, x.dig))
            r = self.eq(O.assume(a, c, True), O.assume(b, c, True), path + ((c, True),), O.assume(dc, c, True)) and self.eq(
                O.assume(a, c, False), O.assume(b, c, False), path + ((c, False),), O.assume(dc, c, False)
            )
        self.memo[key] = r
        return r


def lengths(path):
    """lengths known from the equations assumed on the path"""
    m = {}
    for c, v in path:
        if v and c.op == "cmp" and c.args[0] == "==0" and c.args[1].op == "poly":
            d = c.args[1]
            ls = [(k, x[0][0]) for k, x in d.args if len(x) == 1 and x[0][1] == 1 and x[0][0].op == "len" and abs(k) == 1]
            vals = {x: T.sub(x, d) if k == 1 else T.add(x, d) for k, x in ls}
            if vals and not m:
                # the longer one in terms of the shorter one
                x = min(vals, key=lambda q: (any(k < 0 for k, _ in T._as_poly(vals[q])), T.shape_dig(q), q.dig))
                m[x] = vals[x]
    return m


def noset(t, path):
    """an element store that changes nothing, by the conditions assumed: x[i] = v where x[i] is v already"""
    facts = dict(path)
    while t.op == "setitem":
        base, k, v = t.args
        cur = O.item(base, k)
        if v in (TRUE, FALSE) and facts.get(T.truthy(cur)) is (v is TRUE) or facts.get(T.cmp("==", cur, v)) is True:
            t = base
        else:
            break
    return t


def contradictory(path):
    """no execution takes the path: some condition on it, rewritten by the equalities assumed on it, is decided the other way"""
    seen = dict(path)
    if any(seen[c] is not v for c, v in path):
        return True
    for c, v in path:  # a container (it has a length) is true when it is not empty
        if c.op == "op" and c.args[0] == "truth":
            e = seen.get(T.cmp("<", T.ZERO, O.length(c.args[1][0])))
            if e is not None and e is not v:
                return True
    for c, v in path:
        x = c
        for d, w in path:
            if d is not c:
                x = O.assume(x, d, w)
        if x is TRUE and not v or x is FALSE and v:
            return True
    return False


def _atoms(c):
    if c.op in ("and", "or"):
        return frozenset(x for y in c.args for x in _atoms(y))
    if c.op == "not":
        return _atoms(c.args[0])
    if c.op == "const":
        return frozenset()
    return frozenset([c])


def norm_owned(a, b):
    """restrict the gradients of marked reference losses, and of the losses at the same positions, to their owners"""
    if b.op == "list" and a.op == "list" and len(a.args) == len(b.args):
        xs, ys = [], []
        for x, y in zip(a.args, b.args):
            m = owned(y)
            if m is not None:
                x, y = gradnorm(x, False, m[1]), gradnorm(m[0], False, m[1])
            xs.append(x)
            ys.append(y)
        return mk("list", *xs), mk("list", *ys)
    if b.op == "concat" and a.op == "concat" and len(a.args) == len(b.args):
        xy = [norm_owned(x, y) for x, y in zip(a.args, b.args)]
        return mk("concat", *[x for x, _ in xy]), mk("concat", *[y for _, y in xy])
    return a, b


def leaf_equal(a, b):
    a, b = norm_owned(a, b)
    ca, cb = [0], [0]
    sa, sb = shapestrip(a, ca), shapestrip(b, cb)
    return sa is sb and ca[0] == cb[0] and not shape_conflict(a, b)


def shape_sites(t):
    """(operator, operand without shape operators) -> its shape arguments"""
    out = {}
    for x in T.subterms(t):
        if x.op == "op" and x.args[0] in ("reshape", "unsqueeze"):
            nm, a, k = x.args
            ds = a[1].args if nm == "reshape" and len(a) > 1 and a[1].op == "tuple" else tuple(v for kk, v in k if kk == "dim")
            if ds:
                out.setdefault((nm, shapestrip(a[0], [0])), []).append(ds)
    return out


def shape_conflict(a, b):
    """the same operand is reshaped (unsqueezed) once on each side, to shapes that cannot coincide"""
    sa, sb = shape_sites(a), shape_sites(b)
    for k, xs in sa.items():
        ys = sb.get(k, ())
        if len(xs) == 1 == len(ys) and len(xs[0]) == len(ys[0]):
            if xs[0] != ys[0] and sorted(x.dig for x in xs[0]) == sorted(y.dig for y in ys[0]):
                return True  # the same extents in another order
            for p, q in zip(xs[0], ys[0]):
                if p is q:
                    continue
                if T.is_num(p) and T.is_num(q):
                    if k[0] == "reshape":
                        if -1 not in (p.args[1], q.args[1]) or 1 in (p.args[1], q.args[1]):
                            return True
                    elif (p.args[1] >= 0) == (q.args[1] >= 0):
                        return True
                elif p.op in ("attr", "sym") and q.op in ("attr", "sym"):
                    return True
    return False


def diffs(a, b, out=None, seen=None, limit=6):
    """innermost differing pairs of subterms with the same context"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if a is b or (a, b) in seen or len(out) >= limit:
        return out
    seen.add((a, b))
    if a.op != b.op or len(a.args) != len(b.args):
        out.append((a, b))
        return out
    if a.op == "poly":
        sa, sb = set(a.args), set(b.args)
        da, db = sorted(sa - sb, key=_polykey), sorted(sb - sa, key=_polykey)
        if len(da) != len(db):
            out.append((a, b))
            return out
        for (ca, ma), (cb, mb) in zip(da, db):
            fa, fb = dict(ma), dict(mb)
            xa = [x for x in fa if fb.get(x) != fa[x]]
            xb = [x for x in fb if fa.get(x) != fb[x]]
            if ca == cb and len(xa) == 1 and len(xb) == 1 and fa[xa[0]] == fb[xb[0]]:
                diffs(xa[0], xb[0], out, seen, limit)
            else:
                out.append((T._mk_poly({ma: ca}), T._mk_poly({mb: cb})))
        return out
    fa, fb = T.children(a), T.children(b)
    if len(fa) != len(fb) or _skeleton(a) != _skeleton(b):
        out.append((a, b))
        return out
    for x, y in zip(fa, fb):
        diffs(x, y, out, seen, limit)
    return out


def _polykey(cm):
    return (float(cm[0]), len(cm[1]), sum(T.size_of(x) if hasattr(T, "size_of") else x.size for x, _ in cm[1]))


def _skeleton(t):
    def go(x):
        if isinstance(x, Term):
            return "."
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return tuple(go(x) for x in t.args)


def has_unk(*ts):
    return any(t.flags & T.F_UNK for t in ts)


def compare(label, a, b, dc=FALSE, loc="", grad=True, budget=6000):
    """a: implementation, b: reference -> Verdict"""
    if not grad:
        a, b = O.strip(a), unmark(O.strip(b))
    else:
        a, b = gradnorm(a), gradnorm(b)
    dc = O.strip(dc)
    if a is b:
        return Verdict("ok", label, loc=loc)
    e = DCEquiv(dc, budget)
    try:
        if e.eq(a, b):
            return Verdict("ok", label, loc=loc)
    except (Budget, RecursionError):
        return Verdict("undecided", label, "comparison budget exhausted", loc)
    path, x, y = e.diff
    if has_unk(x, y):
        return Verdict("undecided", label, "contains a construct outside the evaluator: " + T.show(x, 6)[:400], loc)
    loose = [t for t in T.subterms(a) if _openitem(t)]
    if loose and any(t.op == "op" for t in loose) and any(x.op == "op" and x.args[0] == loose[0].args[0] for x in T.subterms(b)):
        loose = [t for t in loose if t.op != "op"]
    if loose and any(t not in T.subterms(b) for t in loose):
        return Verdict("undecided", label, "position in a list (chunk) of unknown length: " + T.show(loose[0], 6)[:400], loc)
    det = " ; ".join("found %s ; required %s" % (_sh(p, 400), _sh(q, 400)) for p, q in sorted(diffs(x, y), key=lambda pq: pq[0].size)[:3])
    if path:
        det += " ; when " + " and ".join(("" if v else "not ") + T.show(c, 7)[:160] for c, v in path[:8])
    det += " ; full found %s ; full required %s" % (_sh(x, 2500), _sh(y, 2500))
    return Verdict("violation", label, det, loc, path)


def _openitem(t):
    """xs[3] where xs = (list of unknown length) + [...]: which element this is depends on that length, like the width of a chunk"""
    if t.op == "op" and t.args[0] in ("chunk", "tensor_split"):
        return True
    return t.op == "item" and t.args[0].op == "concat" and t.args[1].op == "const" and t.args[0].args[0].op in ("attr", "sym", "call")


def _sh(x, n=700):
    s = T.show(x, 40) if isinstance(x, Term) else repr(x)
    return s if len(s) <= n else s[:n] + " …"


# ------------------------------------------------------------------ evaluation


class Run:
    """result of evaluating one function"""

    def __init__(self, interp, st, ret, fn, selft, base_events=0):
        self.it, self.st, self.ret, self.fn, self.selft = interp, st, ret, fn, selft
        self.events = st.events[base_events:]

    @property
    def loc(self):
        return self.fn.loc()

    def raises(self, asserts=True):
        return or_(*[e.gate for e in self.events if e.kind == "raise" and (asserts or e.val.args[1] != "AssertionError")])

    def raise_list(self, names=None):
        return [e for e in self.events if e.kind == "raise"]

    def yields(self):
        r = mk("list")
        for e in self.events:
            if e.kind == "yield":
                v = e.val
                if v.op == "each":
                    x = v.args[0]
                else:
                    x = mk("list", v)
                r = O.concat(r, ite(e.gate, x, mk("list")))
        return r

    def attr(self, name, obj=None):
        obj = obj if obj is not None else self.selft
        k = ("attr", obj, name)
        v = self.st.heap.get(k)
        if v is None:
            v = mk("attr", obj, name)
        v = self.it.expanded(self.st, v)
        c = self.st.heap.get(("content", v))
        if c is not None:
            v = self.it.deep(self.st, c)
        return v

    def content(self, term):
        c = self.st.heap.get(("content", term))
        return self.it.deep(self.st, c) if c is not None else term

    def written(self):
        out = {}
        for k, v in self.st.heap.items():
            if isinstance(k, tuple) and k[0] == "attr" and k[1] is self.selft:
                out[k[2]] = v
        return out

    def calls(self, pred):
        """ordered list-term of the opaque calls selected by pred(term)"""
        out = []
        for e in self.events:
            if e.kind in ("call", "store", "setitem", "inplace", "enter", "exit"):
                v = located(e.val) if e.kind == "setitem" else e.val
                if e.kind == "setitem":
                    pred_ = lambda k, x: pred(k, x) and not (x.op == "tuple" and x.args[0].op == "const")
                else:
                    pred_ = pred
                if v.op == "each":
                    x = _select(v, lambda x: pred_(e.kind, x))
                    if x.op == "list":
                        out += [(e.gate, y) for y in x.args]
                    else:
                        out.append((e.gate, x))
                elif pred_(e.kind, v):
                    out.append((e.gate, v))
        split = []

        def put(g, x):
            if x.op == "ite" and g is not FALSE:
                put(and_(g, x.args[0]), x.args[1])
                put(and_(g, not_(x.args[0])), x.args[2])
            elif x.op == "list":
                for y in x.args:
                    put(g, y)
            elif g is not FALSE:
                split.append((g, x))
        for g, x in out:
            put(g, x)
        out = split
        _order(out)
        r = mk("list")
        for g, x in out:
            r = O.concat(r, ite(g, x if x.op in ("list", "ite", "concat") else mk("list", x), mk("list")))
        return r


def located(v):
    """element stores into a container of arrays leave the arrays it holds the same objects"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = at(T.rebuild(x, go))
        return r

    def at(x):
        if x.op == "tuple" and len(x.args) == 3 and x.args[0].op == "item" and x.args[0].args[0].op == "fold":
            _, n, inits, upds, i = x.args[0].args[0].args
            u = upds[i]
            if len(upds) == 1 and u.op == "setitem" and u.args[0].op == "bv" and u.args[2].op == "setitem" and u.args[2].args[0] is O.item(u.args[0], u.args[1]):
                return mk("tuple", O.item(inits[i], x.args[0].args[1]), *x.args[1:])
        return x

    return go(v)


def _exclusive(a, b, cond=TRUE):
    """repeated events of mutually exclusive branches of the same (nested) loop bodies"""
    if a.op == "list" and b.op == "list":
        return all(_exclusive(x, y, cond) for x in a.args for y in b.args)
    if not a.op == b.op == "each" or a is b:
        return False
    ma, mb = a.args[0], b.args[0]
    if ma.op not in ("map", "lam") or ma.op != mb.op or ma.args[1] is not mb.args[1]:
        return False
    f = T.fresh("b")
    x, y = O.beta(ma, 2, f), O.beta(mb, 2, f)
    if not (x.op == y.op == "tuple" and len(x.args) == len(y.args) == 2):
        return False
    c = and_(cond, x.args[0], y.args[0])
    return c is FALSE or _exclusive(x.args[1], y.args[1], c)


def _order(out):
    """events of mutually exclusive branches of one loop body have no order"""
    def key(x):
        return T.show(x[1].args[0].args[-1], 8)

    def root(x):
        # element store into a container held by an attribute
        if x.op != "tuple" or len(x.args) != 3:
            return None
        x = x.args[0]
        while x.op in ("setitem", "updated", "item", "delitem"):
            x = x.args[0]
        return x if x.op == "attr" and x.args[0].op == "sym" else None

    swapped, n = True, 0
    while swapped and n < 50:
        swapped, n = False, n + 1
        for i in range(len(out) - 1):
            a, b = out[i][1], out[i + 1][1]
            ra, rb = root(a), root(b)
            if ra is not None and rb is not None and ra is not rb and T.show(ra, 4) > T.show(rb, 4):
                out[i], out[i + 1] = out[i + 1], out[i]  # containers of different attributes
                swapped = True
                continue
            if out[i][0] is out[i + 1][0] and a.op == b.op == "each" and a is not b and _exclusive(a, b) and key(out[i]) > key(out[i + 1]):
                out[i], out[i + 1] = out[i + 1], out[i]
                swapped = True


def _select(v, pred):
    """list of the (repeated) calls selected by pred"""
    if v.op == "ite":
        return ite(v.args[0], _select(v.args[1], pred), _select(v.args[2], pred))
    if v.op != "each":
        return mk("list", v) if pred(v) else mk("list")
    b = v.args[0]
    if b.op == "ite":
        return ite(b.args[0], _select(mk("each", b.args[1]), pred), _select(mk("each", b.args[2]), pred))
    if b.op in ("map", "lam") and b.args[-1].op == "ite":
        alt = []
        for c, e in ((b.args[-1].args[0], b.args[-1].args[1]), (not_(b.args[-1].args[0]), b.args[-1].args[2])):
            if e.op == "tuple" and len(e.args) == 2:
                e = mk("tuple", and_(c, e.args[0]), e.args[1])
                alt.append(e)
            elif e.op == "ite":
                for k in e.args[1:]:
                    if k.op != "tuple" or len(k.args) != 2:
                        break
                else:
                    alt.append(mk("tuple", and_(c, e.args[0], e.args[1].args[0]), e.args[1].args[1]))
                    alt.append(mk("tuple", and_(c, not_(e.args[0]), e.args[2].args[0]), e.args[2].args[1]))
        m = {}
        for e in alt:
            if e.args[0] is not FALSE:
                m[e.args[1]] = or_(m[e.args[1]], e.args[0]) if e.args[1] in m else e.args[0]
        r = mk("list")
        for x, g in m.items():
            r = O.concat(r, _select(mk("each", mk(b.op, *b.args[:-1], mk("tuple", g, x))), pred))
        return r
    if b.op in ("map", "lam") and b.args[-1].op == "tuple" and len(b.args[-1].args) == 2:
        g, x = b.args[-1].args
        if g is FALSE:
            return mk("list")
        inner = _select(x, pred)
        if inner.op == "list" and not inner.args:
            return inner
        if inner.op == "list" and len(inner.args) == 1 and inner.args[0] is x:
            return mk("list", v)
        return mk("list", mk("each", mk(b.op, *b.args[:-1], mk("tuple", g, inner))))
    return mk("list", v) if pred(b) else mk("list")


def callname(v):
    if v.op == "nth":
        v = v.args[0]
    if v.op == "meth":
        return v.args[0]
    if v.op == "call":
        f = v.args[0]
        if f.op == "attr":
            return f.args[1]
        if f.op in ("func", "mod"):
            return f.args[0].split(".")[-1]
        return ""
    return ""


class Session:
    """one analysis of the current tree"""

    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        self.ix = Index(self.root, ("reagent",), extra={"specs": VERIF})
        if overrides:
            self.ix.overrides.update(overrides)
        self.stats = {"functions": set(), "callsites": 0, "unknown": 0, "compared": 0}
        self.t0 = time.time()

    def interp(self, opaque=(), inline_new=()):
        return Interp(self.ix, opaque, inline_new)

    def done(self, it):
        self.stats["functions"].update(it.evaluated)
        self.stats["callsites"] += it.callsites
        self.stats["unknown"] += len(it.unknowns)

    # ---- objects
    def make_self(self, it, cls, name="self", ctor="ctor", init=True, keep=()):
        """symbolic instance after construction -> (state, self term, init events)"""
        selft = sym(name)
        it.objcls[selft] = cls
        st = State()
        ev = []
        if init and not self.ix.is_record(cls):
            fn = self.ix.find_method(cls, "__init__")
            if fn is not None:
                c = sym(ctor)
                args = [selft]
                kw = {}
                a = fn.node.args
                names = [x.arg for x in a.posonlyargs + a.args][1:]
                for n in names:
                    args.append(mk("attr", c, n))
                for n in a.kwonlyargs:
                    kw[n.arg] = mk("attr", c, n.arg)
                # typed constructor parameters of record type
                for x in a.args[1:] + a.kwonlyargs:
                    if x.annotation is not None:
                        k = _ann_class(self.ix, fn.module, x.annotation)
                        if k is not None and not self.ix.is_enum(k):
                            it.objcls[mk("attr", c, x.arg)] = k
                it.inline(fn, args, kw, st, selft=selft, cls=cls)
                ev = list(st.events)
        elif init:
            for nm in ("__post_init__", "__post_init_post_parse__"):
                f = self.ix.find_method(cls, nm)
                if f is not None:
                    it.inline(f, [selft], {}, st, selft=selft, cls=cls)
            ev = list(st.events)
        self.init_heap = dict(st.heap)
        self.init_state = st.fork()
        st.events = []
        st.facts, st.path = {}, ()
        mut = it.mutable_attrs(cls)
        for n in mut:
            if n in keep:
                continue
            for k in list(st.heap):
                if isinstance(k, tuple) and k[0] == "attr" and k[1] is selft and k[2] == n:
                    v = st.heap.pop(k)
                    st.heap.pop(("content", v), None)
        return st, selft, ev

    def run(self, it, fn, args, kw, st, selft=None, cls=None):
        s = st.fork()
        n0 = len(s.events)
        it.tries = {}
        r = it.inline(fn, args, kw, s, selft=selft, cls=cls)
        r = it.expanded(s, r)
        r = self.called(it, fn, s, r)
        return Run(it, s, r, fn, selft, n0)

    def called(self, it, fn, s, r):
        """a function that returns a function: observe a call of the result"""
        if r.op == "ite" and any(x.op == "closure" for x in O._leaves(r)):
            return T.ite(r.args[0], self.called(it, fn, s, r.args[1]), self.called(it, fn, s, r.args[2]))
        if r.op != "closure":
            return r
        node, cctx = it.closures[r.args[0]]
        given = []
        for i, x in enumerate(node.args.posonlyargs + node.args.args):
            v = sym("arg%d" % i)
            k = _ann_class(self.ix, cctx.module, x.annotation) if x.annotation is not None and not fn.qual.startswith("specs.") else None
            if k is not None and self.ix.is_record(k):
                it.objcls[v] = k
            given.append(v)
        if not given and node.args.vararg is not None:
            given.append(sym("arg0"))
        f = r
        r = it.expanded(s, it.call_closure(f, given, {}, s))
        if any(isinstance(x, ast.Nonlocal) for x in ast.walk(node)):
            # it keeps state of its own between calls: observe the next call too
            again = [sym("arg%d_next" % i) for i in range(len(given))]
            for a, b in zip(given, again):
                if a in it.objcls:
                    it.objcls[b] = it.objcls[a]
            r = T.mk("tuple", r, it.expanded(s, it.call_closure(f, again, {}, s)))
        return r


def _ann_class(ix, module, ann):
    if isinstance(ann, ast.Subscript):
        n = ann.value
        nm = n.id if isinstance(n, ast.Name) else getattr(n, "attr", "")
        if nm == "Optional":
            return _ann_class(ix, module, ann.slice)
        return None
    return ix.resolve_expr_class(module, ann)


class Pair:
    """implementation and reference evaluated on the same symbolic inputs"""

    def __init__(self, ses, target, spec, opaque=(), inline_new=(), init=True, cls=None, selfname="self", typed=True,
                 assume=(), keep=(), watch=(), volatile=(), mutators=(), modes=None):
        ix = ses.ix
        self.ses = ses
        self.target = target
        it = self.it = ses.interp(set(opaque) | {"specs.common.own"}, inline_new)
        fn = ix.get(target)
        if fn is None and cls is not None:
            c = ix.need(cls)
            fn = ix.find_method(c, target.split(".")[-1])
        if fn is None and cls is None:
            fn = ix.moved(target)
        if not isinstance(fn, Func):
            raise AnalysisBroken("anchor not found: " + target)
        sp = ix.need("specs." + spec)
        self.fn, self.sp = fn, sp
        it.specdef = fn.cls
        it.watch = frozenset(watch)
        it.modes = modes
        it.volatile, it.mutators = frozenset(volatile), frozenset(mutators)
        c = ix.need(cls) if cls else fn.cls
        if cls is None and c is not None and "." in target:
            owner = ix.get(target.rsplit(".", 1)[0])
            if isinstance(owner, Class):
                c = owner  # the method may be inherited
        params = [a.arg for a in sp.node.args.args]
        if c is not None and not fn.is_static:
            if fn.is_class:
                st, selft = State(), mk("cls", c.qual)
                self.init_events = []
            elif fn.name == "__init__":
                st, selft = State(), sym(selfname)
                it.objcls[selft] = c
                self.init_events = []
            else:
                st, selft, self.init_events = ses.make_self(it, c, selfname, init=init, keep=keep)
        else:
            st, selft = State(), None
            self.init_events = []
        self.selft = selft
        st.frames.clear()
        binds = {}
        margs = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args]
        if selft is not None:
            margs = margs[1:]
        sargs = [p for p in params if p not in ("self", "ctor")]
        # positional correspondence
        spann = {a.arg: a.annotation for a in sp.node.args.args}
        vals = []
        for i, p in enumerate(sargs):
            v = sym(p)
            k = None
            if spann.get(p) is not None:
                k = _ann_class(ix, sp.module, spann[p])
                if k is None and isinstance(spann[p], ast.Constant) and isinstance(spann[p].value, str):
                    k = ix.need(spann[p].value)
            elif typed and i < len(fn.node.args.args) - (1 if selft is not None else 0):
                an = fn.node.args.args[i + (1 if selft is not None else 0)].annotation
                if an is not None:
                    k = _ann_class(ix, fn.module, an)
                    if is_dict_annotation(an):
                        it.dictsyms.add(v)
                    if isinstance(an, ast.Name) and an.id == "bool":
                        it.boolsyms.add(v)
            if isinstance(k, Class) and not ix.is_enum(k):
                it.objcls[v] = k
            elif _askeys(sp, p) or i < len(margs) and _askeys(fn, margs[i]):
                it.dictsyms.add(v)
            vals.append(v)
        margnames = margs + [a.arg for a in fn.node.args.kwonlyargs]
        if fn.name == "__init__":
            for a in fn.node.args.args[1:] + fn.node.args.kwonlyargs:
                pass
        pos, kws = [], {}
        npos = len(margs)
        for i, p in enumerate(sargs):
            if i < npos:
                pos.append(vals[i])
            elif fn.node.args.vararg is not None and not fn.node.args.kwonlyargs:
                pos.append(vals[i])
            elif i - npos < len(fn.node.args.kwonlyargs):
                kws[fn.node.args.kwonlyargs[i - npos].arg] = vals[i]
            else:
                pos.append(vals[i])
        skw = {}
        if sp.node.args.kwarg is not None and fn.node.args.kwarg is not None:
            kws["**"] = sym(sp.node.args.kwarg.arg)
            skw["**"] = kws["**"]
        sstar = []
        if sp.node.args.vararg is not None and fn.node.args.vararg is not None and len(pos) >= npos:
            sstar = [mk("star", sym(sp.node.args.vararg.arg))]
            pos += sstar
        for c_, v_ in assume:
            it.assume(st, c_, v_)
        self.base = st
        if fn.name == "__init__":
            ct = sym("ctor")
            pos, kws = [], {}
            for a in fn.node.args.args[1:]:
                pos.append(mk("attr", ct, a.arg))
            for a in fn.node.args.kwonlyargs:
                kws[a.arg] = mk("attr", ct, a.arg)
        before = dict(it.evaluated)
        it.evaluated = {}
        self.impl = ses.run(it, fn, ([selft] if selft is not None else []) + pos, kws, st, selft, c)
        self.ran = list(it.evaluated.values())  # functions of the implementation's run proper (not of the constructor)
        it.evaluated.update(before)
        sv = []
        vi = iter(vals)
        for p in params:
            if p == "self":
                sv.append(selft)
            elif p == "ctor":
                sv.append(sym("ctor"))
            else:
                sv.append(next(vi))
        # the reference has the privileges of a method of the class (self.helper is resolved on the class)
        self.spec = ses.run(it, sp, sv + sstar, skw, st, selft, c)
        ses.done(it)
        self.dc = or_(self.impl.raises(), self.spec.raises())
        self.verdicts = []
        if fn.name != "__init__":
            self.defaults(it, sargs, margnames)

    def defaults(self, it, sargs, margnames):
        """parameters the reference gives a default have the same default in the implementation"""
        a, b = _defaults(self.fn), _defaults(self.sp)
        for p, m in zip(sargs, margnames):
            if p in b and m in a:
                st = State()
                x = it.deep(st, it.ev(a[m], it.modctx(self.fn.module, st), st))
                y = it.deep(st, it.ev(b[p], it.modctx(self.sp.module, st), st))
                if x.op == "const" and y.op == "const":
                    self._add(compare("default of parameter %d" % sargs.index(p), x, y, FALSE, self.fn.loc()))

    def _add(self, v):
        self.ses.stats["compared"] += 1
        self.verdicts.append(v)
        return v

    def ret(self, grad=True, label="return value"):
        return self._add(compare(label, self.impl.ret, self.spec.ret, self.dc, self.fn.loc(), grad))

    def yields(self, grad=True):
        return self._add(compare("yielded values", self.impl.yields(), self.spec.yields(), self.dc, self.fn.loc(), grad))

    def attrs(self, *names, grad=False):
        for n in names:
            self._add(compare("attribute %s on exit" % n, self.impl.attr(n), self.spec.attr(n), self.dc, self.fn.loc(), grad))

    def written(self, grad=False, ignore=()):
        """all attributes the reference writes; and nothing else is written that the reference's class state uses"""
        w = [k for k in self.spec.written() if self.base.heap.get(("attr", self.selft, k)) is not self.spec.written()[k]]
        for n in sorted(w):
            if n not in ignore:
                self.attrs(n, grad=grad)

    def modes(self, strict=True):
        """every tracked network is in evaluation mode whenever it is consulted (strictly: without gradients, and leaves in its former mode)"""
        nets = {}
        for e in self.impl.events:
            if e.kind == "mode":
                for m in (x for x in T.subterms(e.val) if x.op == "modecall"):
                    net, on = m.args
                    nets.setdefault(net, []).append(and_(e.gate, on))
                    if strict and not e.nograd:
                        nets[net].append(TRUE)
        if not nets:
            self._add(Verdict("undecided", "evaluation mode", "no consulted network found", self.fn.loc()))
        for net, on in nets.items():
            n = T.show(net, 6)
            self._add(compare("%s is in evaluation mode%s whenever consulted" % (n, " without gradients" if strict else ""), or_(*on), FALSE, FALSE, self.fn.loc()))
            end = self.impl.st.heap.get(("attr", net, "training"))
            if end is not None and strict:
                self._add(compare("%s leaves in the mode it came in" % n, end, mk("attr", net, "training"), FALSE, self.fn.loc()))

    def calls(self, *names, label=None, grad=False, kinds=("call",), where=None):
        pred = (lambda k, v: k in kinds and callname(v) in names) if names else (lambda k, v: k in kinds and (where is None or where(v)))
        self._add(compare(label or "calls of " + "/".join(names), self.impl.calls(pred), self.spec.calls(pred), self.dc,
                          self.fn.loc(), grad))

    def raises(self, exact=False):
        """whenever the reference rejects, the implementation rejects"""
        a, b = O.strip(self.impl.raises()), O.strip(self.spec.raises())
        self._add(compare("rejection condition", or_(not_(b), a), TRUE, FALSE, self.fn.loc()))
        if exact:  # assertions of the implementation aside, it rejects nothing else
            c = O.strip(self.impl.raises(asserts=False))
            asserts = O.strip(or_(*[e.gate for e in self.impl.events if e.kind == "raise" and e.val.args[1] == "AssertionError"]))
            self._add(compare("nothing else is rejected", or_(not_(c), b, asserts), TRUE, FALSE, self.fn.loc()))
