"""Hash-consed value-graph terms with an algebraic normal form.

A Term is immutable; structurally equal terms are the same object, so value
equality of two program fragments (modulo the rewrites applied by the smart
constructors below) is object identity.

Nodes of interest
  const(tag, v)            literals (numbers are canonical Fractions)
  sym(name)                free input: parameter, module global, ...
  attr(base, name)         initial value of an attribute of an opaque object
  poly((coef, mono), ...)  sum of products over atoms (commutative ring, numbers)
  op(name, args, kw)       known operator with normalised arguments
  call(fn, args, kw)       call of something opaque
  ite(c, a, b)             gated join (gated SSA phi)
  bv(h)                    bound variable of the binder of height h
  map/fmap/fold/sum/...    canonical loops, closed over bv(h)
"""
import hashlib
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "dig", "height", "size", "flags", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.dig < other.dig


def _digest(x):
    if isinstance(x, Term):
        return x.dig
    if isinstance(x, tuple):
        return "(" + ",".join(_digest(y) for y in x) + ")"
    return type(x).__name__ + ":" + repr(x)


# flag bits
F_ITE = 1      # contains an ite/and/or/not outside a binder
F_UNK = 2      # contains an unknown
F_BV = 4       # contains a bound variable (possibly closed)
F_DET = 8      # contains a detach node
F_FRESH = 16   # contains a fresh symbol (open binder)
F_BINDER = 32


def mk(op, *args):
    if op == "call" and len(args) == 3 and args[2]:
        # f(**{"k": v}) is f(k=v)
        for k, v in args[2]:
            if k == "**" and isinstance(v, Term) and v.op == "dict" and all(is_str(kk) for kk, _ in v.args):
                kw = dict(args[2])
                del kw["**"]
                kw.update((kk.args[1], x) for kk, x in v.args)
                args = (args[0], args[1], tuple(sorted(kw.items())))
                break
    if op == "call" and len(args) == 3 and len(args[1]) > 1 and args[0].op in ("attr", "sym"):
        # f(x[0], x[1]) is f(*x) (x a tuple of that length)
        x = args[1][0].args[0] if args[1][0].op == "item" else None
        if x is not None and all(a.op == "item" and a.args[0] is x and a.args[1].op == "const" and a.args[1].args == ("num", i)
                                 for i, a in enumerate(args[1])):
            args = (args[0], (mk("star", x),), args[2])
    key = (op, args)
    t = _table.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    h = 0
    fl = 0
    size = 1

    def scan(a):
        nonlocal h, fl, size
        if isinstance(a, Term):
            if a.height > h:
                h = a.height
            fl |= a.flags
            size += a.size
        elif isinstance(a, tuple):
            for b in a:
                scan(b)

    for a in args:
        scan(a)
    if op in BINDERS:
        h += 1
        fl &= ~F_ITE
        fl |= F_BINDER
    if op in ("ite", "and", "or"):
        fl |= F_ITE
    elif op == "unk":
        fl |= F_UNK
    elif op == "detach":
        fl |= F_DET
    elif op == "fresh":
        fl |= F_FRESH
    t.height = h
    t.flags = fl
    t.size = min(size, 1 << 40)
    t.dig = hashlib.blake2b(
        (op + "|" + "|".join(_digest(a) for a in args)).encode(), digest_size=12
    ).hexdigest()
    _table[key] = t
    return t


BINDERS = {"map", "fmap", "fold", "while", "sum", "lam", "dictmap", "flat", "last", "any", "all"}

_shape = {}


def shape_dig(t):
    """digest that does not depend on the names of bound or open variables (total order stable under closing)"""
    if not t.flags & (F_FRESH | F_BV):
        return t.dig
    r = _shape.get(t)
    if r is None:
        if t.op in ("fresh", "bv"):
            r = "*"
        else:
            def h(a):
                if isinstance(a, Term):
                    return shape_dig(a)
                if isinstance(a, tuple):
                    return "(" + ",".join(h(b) for b in a) + ")"
                return type(a).__name__ + ":" + repr(a)

            if t.op == "poly":
                parts = sorted("%r;%s" % (c, ",".join(sorted("%s^%r" % (h(a), p) for a, p in m))) for c, m in t.args)
            elif t.op in ("and", "or", "set") or t.op == "cmp" and t.args[0] in ("==", "is"):
                parts = sorted(h(a) for a in t.args)
            else:
                parts = [h(a) for a in t.args]
            r = hashlib.blake2b((t.op + "|" + "|".join(parts)).encode(), digest_size=12).hexdigest()
        _shape[t] = r
    return r


# ---------------------------------------------------------------- constants


def const(v):
    if isinstance(v, bool):
        return mk("const", "bool", v)
    if isinstance(v, int):
        return mk("const", "num", Fraction(v))
    if isinstance(v, float):
        if v != v:
            return mk("const", "nan", "nan")
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        return mk("const", "num", Fraction(v))
    if isinstance(v, Fraction):
        return mk("const", "num", v)
    if isinstance(v, str):
        return mk("const", "str", v)
    if v is None:
        return mk("const", "none", None)
    if v is Ellipsis:
        return mk("const", "ellipsis", None)
    if isinstance(v, bytes):
        return mk("const", "bytes", v)
    if isinstance(v, complex):
        return mk("const", "complex", repr(v))
    raise TypeError(v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
INF = mk("const", "inf", "inf")
ZERO = const(0)
ONE = const(1)


def sym(name):
    return mk("sym", name)


_fresh = [0]


def fresh(hint="v"):
    _fresh[0] += 1
    return mk("fresh", _fresh[0], hint)


def is_num(t):
    return t.op == "const" and t.args[0] == "num"


def numval(t):
    return t.args[1]


def is_str(t):
    return t.op == "const" and t.args[0] == "str"


def is_bool(t):
    return t.op == "const" and t.args[0] == "bool"


_UNK = [0]


def unk(reason, *args):
    """an unknown value; without arguments it equals nothing else"""
    if not args:
        _UNK[0] += 1
        return mk("unk", reason, mk("const", "num", _UNK[0]))
    return mk("unk", reason, *args)


# ---------------------------------------------------------------- polynomials


def _as_poly(t):
    """list of (coef, mono) where mono is a tuple of (atom, power) sorted."""
    if t.op == "poly":
        return list(t.args)
    if t.op == "const":
        if t.args[0] == "num":
            return [(t.args[1], ())] if t.args[1] != 0 else []
        if t.args[0] == "bool":
            return [(Fraction(1), ())] if t.args[1] else []
    return [(Fraction(1), ((t, Fraction(1)),))]


def _mk_poly(terms):
    """terms: dict mono -> coef"""
    items = [(c, m) for m, c in terms.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        c, m = items[0]
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda cm: _mono_key(cm[1]))
    return mk("poly", *items)


def _mono_key(m):
    return tuple((a.dig, p) for a, p in m)


def add(*ts):
    acc = {}
    for t in ts:
        for c, m in _as_poly(t):
            acc[m] = acc.get(m, 0) + c
    if len(acc) > 1:
        for m in acc:
            for a, p in m:
                if a.op == "op" and a.args[0] == "full_like" and _covers(a.args[1][0], m, acc):
                    # the other summands already have the shape of the filled tensor
                    return add(*[mul(const(c), *[power(x.args[1][1] if x is a else x, q) for x, q in n])
                                 for n, c in acc.items()])
    return _mk_poly(acc)


def _covers(x, m, acc):
    if x.op == "poly":
        return all(n in acc and n is not m for _, n in x.args)
    return any(n is not m and any(a is x for a, _ in n) for n in acc)


def scale(k, t):
    k = Fraction(k)
    if k == 0:
        return ZERO
    return _mk_poly({m: c * k for c, m in _as_poly(t)})


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, p in m1 + m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p != 0), key=lambda ap: ap[0].dig))


def content(t):
    """(rational content incl. sign, primitive part)"""
    ps = _as_poly(t)
    if not ps:
        return Fraction(0), ZERO
    from math import gcd

    num = 0
    den = 1
    for c, _ in ps:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    k = Fraction(num, den)
    lead = ps[0][0]
    if lead < 0:
        k = -k
    if k == 1:
        return k, t
    return k, scale(1 / k, t)


EXPAND = 24


def mul(*ts):
    r = ONE
    for t in ts:
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    if a is ONE or a is TRUE:
        return b if b.op != "const" or b.args[0] != "bool" else const(int(b.args[1]))
    if b is ONE or b is TRUE:
        return a if a.op != "const" or a.args[0] != "bool" else const(int(a.args[1]))
    pa, pb = _as_poly(a), _as_poly(b)
    if len(pa) > 1 and len(pb) > 1 and len(pa) * len(pb) > EXPAND:
        ka, a2 = content(a)
        kb, b2 = content(b)
        return _mk_poly({_mono_mul(((a2, Fraction(1)),), ((b2, Fraction(1)),)): ka * kb})
    acc = {}
    for ca, ma in pa:
        for cb, mb in pb:
            m = _mono_mul(ma, mb)
            acc[m] = acc.get(m, 0) + ca * cb
    return _mk_poly(acc)


def power(a, k):
    """a ** k for a numeric Fraction k"""
    k = Fraction(k)
    if k == 0:
        return ONE
    if k == 1:
        return a
    pa = _as_poly(a)
    if not pa:
        return ZERO if k > 0 else mk("op", "pow", (ZERO, const(k)), ())
    if len(pa) == 1:
        c, m = pa[0]
        if k.denominator == 1:
            cc = c ** int(k)
            return _mk_poly({tuple((x, p * k) for x, p in m): cc})
        if c == 1:
            if not m:
                return ONE
            return _mk_poly({tuple((x, p * k) for x, p in m): Fraction(1)})
        if not m or True:
            base = const(c)
            # irrational constant power: keep constant as an atom
            sgn = mk("op", "pow", (base, const(k)), ())
            rest = _mk_poly({tuple((x, p * k) for x, p in m): Fraction(1)}) if m else ONE
            return _mul2(sgn, rest)
    if k.denominator == 1 and 2 <= k <= 3 and len(pa) ** int(k) <= EXPAND:
        r = a
        for _ in range(int(k) - 1):
            r = _mul2(r, a)
        return r
    kk, prim = content(a)
    if k.denominator == 1:
        return _mk_poly({((prim, k),): kk ** int(k)})
    if kk > 0:
        if kk == 1:
            return _mk_poly({((prim, k),): Fraction(1)})
        return _mul2(mk("op", "pow", (const(kk), const(k)), ()), _mk_poly({((prim, k),): Fraction(1)}))
    return _mk_poly({((a, k),): Fraction(1)})


def div(a, b):
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- booleans


def not_(t):
    if is_bool(t):
        return const(not t.args[1])
    if t.op == "not":
        return t.args[0]
    if t.op == "const":
        if t.args[0] == "none":
            return TRUE
        if t.args[0] == "num":
            return const(t.args[1] == 0)
        if t.args[0] == "str":
            return const(t.args[1] == "")
    if t.op == "ite" and (is_bool(t.args[1]) or is_bool(t.args[2])):
        return ite(t.args[0], not_(t.args[1]), not_(t.args[2]))
    return mk("not", t)


def _nary(op, unit, zero, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    s = set()
    for t in out:
        if t is zero:
            return zero
        if t is unit:
            continue
        s.add(t)
    for t in s:
        if not_(t) in s:
            return zero
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    return mk(op, *sorted(s, key=lambda t: t.dig))


def and_(*ts):
    return _nary("and", TRUE, FALSE, ts)


def or_(*ts):
    return _nary("or", FALSE, TRUE, ts)


def cmp(op, a, b):
    """op in == < is in"""
    if op == "!=":
        return not_(cmp("==", a, b))
    if op == "is not":
        return not_(cmp("is", a, b))
    if op == "not in":
        return not_(cmp("in", a, b))
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return not_(cmp("<", a, b))
    if op == "<=":
        return not_(cmp("<", b, a))
    if op in ("==", "is"):
        if a is b:
            return TRUE
        if a.op == "const" and b.op == "const":
            if a.args[0] == "bool" and b.args[0] == "num" or a.args[0] == "num" and b.args[0] == "bool":
                return const(int(a.args[1]) == int(b.args[1])) if op == "==" else FALSE
            return FALSE
        if op == "is" and (NOTNONE(a) and b is NONE or NOTNONE(b) and a is NONE):
            return FALSE
        if op == "==" and (NOTNONE(a) and b is NONE or NOTNONE(b) and a is NONE):
            return FALSE
        if op == "==" and a is NONE or op == "==" and b is NONE:
            op = "is"
        if a.op == "enum" and b.op == "enum":
            return FALSE
        if op == "is" and (a.op == "enum" or b.op == "enum"):
            op = "=="
        if op == "==" and (a.op in ("poly",) or b.op in ("poly",) or is_num(a) or is_num(b)):
            # normalise  a == b  to  (a-b) == 0
            d = sub(a, b)
            if is_num(d):
                return const(d.args[1] == 0)
            k, d = content(d)
            if d.op == "poly" and len(d.args) == 2 and sorted(k for k, _ in d.args) == [-1, 1]:
                (_, m), (_, n) = d.args
                if len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1:  # x - y == 0
                    return cmp("==", m[0][0], n[0][0])
            if d.op == "len":
                return not_(cmp("<", ZERO, d))
            return mk("cmp", "==0", d)
        if a.op == "ite" and _distinct_leaves(a, b):
            return ite(a.args[0], cmp(op, a.args[1], b), cmp(op, a.args[2], b))
        if b.op == "ite" and _distinct_leaves(b, a):
            return ite(b.args[0], cmp(op, a, b.args[1]), cmp(op, a, b.args[2]))
        if (shape_dig(b), b.dig) < (shape_dig(a), a.dig):
            a, b = b, a
        return mk("cmp", op, a, b)
    if op == "<":
        d = sub(b, a)  # a<b  <=> b-a > 0
        if is_num(d):
            return const(d.args[1] > 0)
        if d is INF:
            return TRUE
        k, p = content(d)
        if d.op == "poly" and any(c < 0 for c, m in d.args if m) and all(
                c.denominator == 1 and (not m or len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len") for c, m in d.args) and len(
                [1 for c, m in d.args if m]) == 1:
            return not_(cmp("<", ZERO, sub(ONE, d)))  # whole numbers
        if k > 0:
            return mk("cmp", ">0", p)
        return mk("cmp", ">0", neg(p))
    if op == "in":
        if b.op in ("tuple", "list", "set"):
            if all(x.op in ("const", "enum") for x in b.args) and a.op in ("const", "enum"):
                return const(a in b.args)
            if all(x.op in ("const", "enum") for x in b.args) and len(b.args) <= 6 and b.args:
                return or_(*[cmp("==", a, x) for x in b.args])
            if b.op == "tuple" and b.args and len(b.args) <= 4 and all(x.op in ("sym", "attr", "enum", "const") for x in b.args):
                return or_(*[cmp("==", a, x) for x in b.args])
        if b.op == "dict":
            ks = [k for k, _ in b.args]
            if a.op in ("const", "enum") and all(k.op in ("const", "enum") for k in ks):
                return const(a in ks)
        return mk("cmp", "in", a, b)
    raise ValueError(op)


def _distinct_leaves(i, other):
    """pushing == into an ite only when it decides something"""
    def leaves(t):
        if t.op == "ite":
            return leaves(t.args[1]) + leaves(t.args[2])
        return [t]

    return all(l.op in ("const", "enum") for l in leaves(i)) and other.op in ("const", "enum")


_NN = {"poly", "list", "tuple", "dict", "set", "map", "fmap", "lam", "closure", "cls", "func", "rec",
       "fmt", "sum", "new", "mod", "enum", "bound"}


def NOTNONE(t):
    if t.op in _NN:
        return True
    if t.op == "const" and t.args[0] != "none":
        return True
    if t.op == "op":
        return True
    if t.op == "ref":
        return True
    if t.op in ("cmp", "and", "or", "not"):
        return True
    if t.op == "ite":
        return NOTNONE(t.args[1]) and NOTNONE(t.args[2])
    if t.op == "detach":
        return True
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("make_optimizer", "parameters", "make_from_optimizer"):
        return True
    return False


def truthy(t):
    """condition term for `if t`"""
    if t.op == "const":
        k, v = t.args
        if k == "none":
            return FALSE
        if k in ("bool",):
            return t
        if k == "num":
            return const(v != 0)
        if k in ("str", "bytes"):
            return const(len(v) > 0)
        return TRUE
    if t.op in ("cmp", "and", "or", "not", "isinst", "any", "all", "hasattr") or boolcall(t):
        return t
    if t.op in ("list", "tuple", "dict", "set"):
        return const(len(t.args) > 0)
    if t.op in ("func", "cls", "closure", "lam", "rec", "mod", "enum", "bound", "new"):
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if t.op == "op" and t.args[0] in ("bool", "truth"):
        return truthy(t.args[1][0])
    if t.op == "len":
        return cmp("<", ZERO, t)
    if t.op == "op" and t.args[0] == "mod":
        return not_(cmp("==", t, ZERO))
    if t.op == "attr" and t.args[1].endswith(_OBJECTS):
        return not_(cmp("is", t, NONE))  # networks and optimizer configurations are always true
    return mk("op", "truth", (t,), ())


_PREDICATES = ("inspect.isclass", "inspect.isfunction", "inspect.ismodule", "os.path.exists", "os.path.isfile", "os.path.isdir")


def boolcall(t):
    """a call of a library predicate that returns a bool"""
    return t.op == "call" and t.args[0].op == "mod" and t.args[0].args[0] in _PREDICATES


_OBJECTS = ("_network", "_net", "_optimizer", "_optimizer_cls", "_model", "_target")


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is c:
        a = TRUE
        return ite(c, a, b)
    if b is c:
        b = FALSE
        return ite(c, a, b)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a in (TRUE, FALSE) and _onebool(b):
        return or_(c, b) if a is TRUE else and_(not_(c), b)
    if b in (TRUE, FALSE) and _onebool(a):
        return or_(not_(c), a) if b is TRUE else and_(c, a)
    return mk("ite", c, a, b)


def _onebool(t):
    """a single truth value (a comparison alone may be a mask)"""
    if t.op in ("and", "or"):
        return any(_onebool(x) for x in t.args) and all(_onebool(x) or x.op == "cmp" for x in t.args)
    if t.op == "not":
        return _onebool(t.args[0])
    return t.op == "isinst" or t.op == "op" and t.args[0] in ("truth", "bool")


def _batoms(t, out):
    if t is TRUE or t is FALSE:
        return
    if t.op in ("and", "or", "not"):
        for a in t.args:
            _batoms(a, out)
    elif t.op == "ite":
        for a in t.args:
            _batoms(a, out)
    elif t not in out:
        out[t] = len(out)


def _beval(t, env):
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == "and":
        return all(_beval(a, env) for a in t.args)
    if t.op == "or":
        return any(_beval(a, env) for a in t.args)
    if t.op == "not":
        return not _beval(t.args[0], env)
    if t.op == "ite":
        return _beval(t.args[1] if _beval(t.args[0], env) else t.args[2], env)
    return env[t]


_canon_memo = {}


def canon_bool(t):
    """one representative per boolean function of the same atoms (truth table, at most 12 atoms)"""
    if t.op not in ("and", "or", "ite", "not"):
        return t
    r = _canon_memo.get(t)
    if r is not None:
        return r
    at = {}
    _batoms(t, at)
    r = t
    if len(at) <= 12 and (t.op == "ite" or any(a.op in ("and", "or", "ite") or a.op == "not" and a.args[0].op in ("and", "or", "ite") for a in t.args)):
        at = sorted(at, key=lambda a: (shape_dig(a), a.dig))
        n = len(at)
        table = tuple(_beval(t, {a: bool(m >> i & 1) for i, a in enumerate(at)}) for m in range(1 << n))
        r = _rebuild(table, at)
    _canon_memo[t] = r
    return r


def _rebuild(table, at):
    if all(table):
        return TRUE
    if not any(table):
        return FALSE
    n = len(at)
    halves = []
    for i in range(n):
        lo = tuple(v for m, v in enumerate(table) if not m >> i & 1)
        hi = tuple(v for m, v in enumerate(table) if m >> i & 1)
        halves.append((lo, hi))
    for i, (lo, hi) in enumerate(halves):
        rest = at[:i] + at[i + 1:]
        if lo == hi:
            return _rebuild(lo, rest)
        if not any(lo):
            return and_(at[i], _rebuild(hi, rest))
        if not any(hi):
            return and_(not_(at[i]), _rebuild(lo, rest))
        if all(hi):
            return or_(at[i], _rebuild(lo, rest))
        if all(lo):
            return or_(not_(at[i]), _rebuild(hi, rest))
    lo, hi = halves[0]
    return ite(at[0], _rebuild(hi, at[1:]), _rebuild(lo, at[1:]))


# ---------------------------------------------------------------- traversal


def children(t):
    out = []

    def scan(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                scan(b)

    for a in t.args:
        scan(a)
    return out


REBUILD = {}


def rebuild(t, f):
    """Reconstruct t with f applied to direct children, through smart constructors."""
    op = t.op
    if op in ("const", "sym", "fresh", "bv", "enum", "func", "cls", "mod", "ref", "closure"):
        return t
    if op == "poly":
        parts = []
        ch = False
        for c, m in t.args:
            fs = []
            for a, p in m:
                a2 = f(a)
                if a2 is not a:
                    ch = True
                fs.append((a2, p))
            parts.append((c, fs))
        if not ch:
            return t
        return add(*[mul(const(c), *[power(a, p) for a, p in fs]) for c, fs in parts])
    if op == "ite":
        c = f(t.args[0])
        if c is TRUE:
            return f(t.args[1])
        if c is FALSE:
            return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == "not":
        return not_(f(t.args[0]))
    if op == "and":
        return and_(*[f(a) for a in t.args])
    if op == "or":
        return or_(*[f(a) for a in t.args])

    ch = False

    def go(a):
        nonlocal ch
        if isinstance(a, Term):
            b = f(a)
            if b is not a:
                ch = True
            return b
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a

    args = tuple(go(a) for a in t.args)
    if not ch:
        return t
    if op == "cmp":
        k = args[0]
        if k == "==0":
            return cmp("==", args[1], ZERO)
        if k == ">0":
            return cmp("<", ZERO, args[1])
        return cmp(k, args[1], args[2])
    r = REBUILD.get(op)
    if r is not None:
        return r(*args)
    return mk(op, *args)


def subst(t, mapping):
    """mapping: dict Term -> Term (simultaneous, with renormalisation)."""
    memo = {}

    def go(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def contains(t, pred, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            r = pred(x) or any(go(c) for c in children(x))
            memo[x] = r
        return r

    return go(t)


def occurs(t, what):
    return contains(t, lambda x: x is what)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def has_fresh(t):
    return bool(t.flags & F_FRESH)


# ---------------------------------------------------------------- printing


def show(t, depth=12):
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    if o == "const":
        if a[0] == "num":
            v = a[1]
            return str(v) if v.denominator == 1 else repr(float(v))
        if a[0] == "inf":
            return "inf"
        return repr(a[1])
    if o == "sym":
        return a[0]
    if o == "fresh":
        return "?%s%d" % (a[1], a[0])
    if o == "bv":
        return "$%d" % a[0] if len(a) == 1 else "$%d.%s" % (a[0], a[1])
    if o == "poly":
        out = []
        for c, m in a:
            fs = []
            for x, p in m:
                s = show(x, d)
                if x.op == "poly":
                    s = "(" + s + ")"
                if p != 1:
                    s += "^" + str(p)
                fs.append(s)
            if not fs:
                out.append(show(const(c)))
            elif c == 1:
                out.append("*".join(fs))
            elif c == -1:
                out.append("-" + "*".join(fs))
            else:
                out.append(show(const(c)) + "*" + "*".join(fs))
        return " + ".join(out)
    if o == "attr":
        return show(a[0], d) + "." + a[1]
    if o == "item":
        return show(a[0], d) + "[" + show(a[1], d) + "]"
    if o == "ite":
        return "(%s ? %s : %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "not":
        return "!" + show(a[0], d)
    if o == "cmp":
        if a[0] in ("==0", ">0"):
            return "[%s %s 0]" % (show(a[1], d), a[0][:-1])
        return "[%s %s %s]" % (show(a[1], d), a[0], show(a[2], d))
    if o in ("and", "or"):
        return "(" + (" & " if o == "and" else " | ").join(show(x, d) for x in a) + ")"
    if o == "op":
        kw = ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return a[0] + "(" + ", ".join([show(x, d) for x in a[1]] + kw) + ")"
    if o in ("call", "meth", "new"):
        head = show(a[0], d) if isinstance(a[0], Term) else a[0]
        kw = ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return ("new " if o == "new" else "") + head + "(" + ", ".join([show(x, d) for x in a[1]] + kw) + ")"
    if o in ("list", "tuple", "set"):
        return {"list": "[%s]", "tuple": "(%s)", "set": "{%s}"}[o] % ", ".join(show(x, d) for x in a)
    if o == "dict":
        return "{" + ", ".join("%s: %s" % (show(k, d), show(v, d)) for k, v in a) + "}"
    if o == "rec":
        return a[0].split(".")[-1] + "{" + ", ".join("%s=%s" % (k, show(v, d)) for k, v in a[1]) + "}"

    def go(x):
        if isinstance(x, Term):
            return show(x, d)
        if isinstance(x, tuple):
            return "(" + ", ".join(go(y) for y in x) + ")"
        return str(x)

    return o + "<" + ", ".join(go(x) for x in a) + ">"
