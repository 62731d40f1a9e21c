"""Smart constructors: operators, projections, loops, canonical gating."""
from fractions import Fraction

from . import terms as T
from .terms import (FALSE, NONE, ONE, TRUE, ZERO, Term, add, and_, cmp, const, content, div, is_num, is_str,
                    ite, mk, mul, neg, not_, or_, power, rebuild, scale, sub, subst, sym, truthy, unk)

# --------------------------------------------------------------- signatures
# name -> (params, number of leading "value" params, defaults)
SIG = {}


def sig(names, params, nval=1, **defaults):
    for n in names.split():
        SIG[n] = (params.split(), nval, {k: v for k, v in defaults.items()})


RED = dict(dim=None, keepdim=False)
sig("sum mean amax amin prod std var median any_t all_t logsumexp nansum nanmean", "input dim keepdim", 1, **RED)
sig("max_r min_r", "input dim keepdim", 1, **RED)
sig("argmax argmin", "input dim keepdim", 1, **RED)
sig("softmax log_softmax", "input dim _stacklevel", 1, dim=None)
sig("cumprod cumsum", "input dim", 1, dim=None)
sig("gather", "input dim index", 1)
sig("index_select", "input dim index", 1)
sig("scatter scatter_add", "input dim index src", 1)
sig("clamp", "input min max", 1, min=None, max=None)
sig("cat stack", "tensors dim", 1, dim=0)
sig("unsqueeze", "input dim", 1)
sig("squeeze", "input dim", 1, dim=None)
sig("transpose", "input dim0 dim1", 1)
sig("chunk", "input chunks dim", 1, dim=0)
sig("split", "input size dim", 1, dim=0)
sig("topk", "input k dim largest sorted", 1, dim=-1, largest=True, sorted=True)
sig("sort argsort", "input dim descending", 1, dim=-1, descending=False)
sig("flatten", "input start_dim end_dim", 1, start_dim=0, end_dim=-1)
sig("where", "condition x y", 3)
sig("masked_fill", "input mask value", 3)
sig("masked_select", "input mask", 2)
sig("one_hot", "input num_classes", 1, num_classes=-1)
sig("mse_loss smooth_l1_loss l1_loss binary_cross_entropy binary_cross_entropy_with_logits kl_div cross_entropy nll_loss",
    "input target weight size_average reduce reduction", 2, reduction="mean", weight=None, size_average=None, reduce=None)
SIG["mse_loss"] = ("input target size_average reduce reduction".split(), 2, dict(reduction="mean", size_average=None, reduce=None))
SIG["smooth_l1_loss"] = ("input target size_average reduce reduction beta".split(), 2, dict(reduction="mean", size_average=None, reduce=None, beta=1.0))
SIG["cross_entropy"] = ("input target weight size_average ignore_index reduce reduction".split(), 2, dict(reduction="mean", size_average=None, reduce=None, weight=None, ignore_index=-100))
sig("norm", "input p dim keepdim", 1, p=None, dim=None, keepdim=False)
sig("full", "size fill_value", 2)
sig("full_like", "input fill_value", 2)
sig("linspace", "start end steps", 3)
sig("repeat_interleave", "input repeats dim", 2, dim=None)
sig("roll", "input shifts dims", 2, dims=None)
sig("dropout", "input p training inplace", 1, p=0.5, training=True, inplace=False)
sig("multinomial", "input num_samples replacement", 2, replacement=False)
sig("searchsorted digitize", "a b right", 2, right=False)
sig("isnan isinf isfinite exp log log1p log2 log10 tanh relu sigmoid abs sign floor ceil round erf sin cos logit expm1 softplus atanh trunc",
    "input", 1)
sig("matmul dot outer", "a b", 2)
sig("fmod remainder", "a b", 2)
sig("tril triu diag diagonal", "input diagonal", 1, diagonal=0)
sig("flip", "input dims", 1)
sig("nonzero", "input", 1)
sig("bincount", "input weights minlength", 1, weights=None, minlength=0)
sig("unique", "input sorted", 1, sorted=True)
sig("arange", "start end step", 3)
sig("eye", "n", 1)
sig("expand_as view_as", "input other", 2)
sig("bmm_", "a b", 2)
sig("histc", "input bins min max", 1)
sig("nan_to_num", "input nan", 1, nan=0.0)
sig("take_along_axis", "input indices axis", 2)

DROPKW = {"dtype", "device", "out", "non_blocking", "memory_format", "requires_grad", "copy", "pin_memory", "layout",
          "_stacklevel", "inplace", "sparse_grad"}
KWALIAS = {"axis": "dim", "keepdims": "keepdim", "a_min": "min", "a_max": "max", "shape": "size"}

ALIAS = {
    "true_divide": "div", "divide": "div", "multiply": "mul", "subtract": "sub", "negative": "neg", "absolute": "abs",
    "concatenate": "cat", "concat": "cat", "hstack": "hstack", "clip": "clamp", "view": "reshape", "t": "T",
    "ge": "ge", "mm": "matmul", "bmm": "matmul", "greater": "gt", "less": "lt", "power": "pow", "swapaxes": "transpose",
    "expand_dims": "unsqueeze", "logical_not": "not", "logical_and": "and", "logical_or": "or", "bitwise_not": "not",
    "arctanh": "atanh", "isclose": "isclose", "fabs": "abs",
}

TRANSPARENT = {"float", "double", "half", "to", "cpu", "cuda", "contiguous", "clone", "numpy", "item", "type", "type_as",
               "long", "int", "bool", "tolist", "requires_grad_", "byte", "astype", "copy", "int8", "short", "as_tensor",
               "from_numpy", "asarray", "share_memory_", "pin_memory", "as_subclass"}

UNARY = {"exp", "log", "tanh", "relu", "sigmoid", "abs", "sign", "floor", "ceil", "round", "isnan", "isinf", "isfinite",
         "log1p", "log2", "log10", "erf", "sin", "cos", "logit", "expm1", "softplus", "atanh", "trunc"}

LINEAR = {"sum", "mean", "reshape", "unsqueeze", "squeeze", "gather", "transpose", "index_select", "cumsum", "flatten",
          "expand", "expand_as", "repeat", "T", "permute", "view_as"}
SHAPEOPS = {"reshape", "unsqueeze", "squeeze", "flatten", "view_as", "expand", "expand_as", "T", "transpose"}


REDUCTIONS = {"sum", "mean", "amax", "amin", "prod", "std", "var", "median", "any_t", "all_t", "logsumexp", "argmax", "argmin", "norm"}


def same_dim(a, b):
    """dimension of a reduction (None: all) and of a squeeze (None: all unit dimensions) or unsqueeze"""
    if b is None or a is b:
        return True
    return a is not None and is_num(a) and is_num(b) and {a.args[1], b.args[1]} == {1, -1}


def op(name, args, kw=()):
    """Fully normalised operator application (args tuple, kw tuple of pairs)."""
    args = tuple(args)
    if isinstance(kw, dict):
        kw = tuple(sorted(kw.items()))
    d = dict(kw)
    if name == "truth":
        return truthy(args[0])
    if name in ("isnan", "isinf") and args and args[0].op == "const" and args[0].args[0] in ("nan", "num"):
        return const(name == "isnan" and args[0].args[0] == "nan")
    if name == "exp":
        return _exp(args[0])
    if name == "log":
        return _log(args[0])
    if name == "abs":
        k, p = content(args[0])
        if is_num(args[0]):
            return const(abs(args[0].args[1]))
        return scale(abs(k), mk("op", "abs", (p,), kw)) if k else ZERO
    if name == "pow":
        return pow_(args[0], args[1])
    if name == "len":
        return length(args[0])
    if name == "transpose" and args[0].op == "op" and args[0].args[0] == "tensor" and not args[0].args[2] and len(args[0].args[1]) == 1 and {
            _cidx(d.get("dim0", ZERO)), _cidx(d.get("dim1", ONE))} == {0, 1}:
        r = turned(args[0].args[1][0])
        if r is not None:
            return op("tensor", (r,))
    if name == "norm" and d.get("p", const(2)) in (NONE, const(2)) and len(args) == 1:
        return pow_(op("sum", (pow_(args[0], const(2)),), tuple((a, b) for a, b in kw if a != "p")), const(Fraction(1, 2)))
    if name == "without" and args[0].op == "setitem" and distinct_keys(args[0].args[1], args[1]):
        b, k, v = args[0].args
        return setitem(op("without", (b, args[1])), k, v)
    if name == "index_select" and len(args) == 1 and d_index(kw) is not None:
        return item(args[0], d_index(kw))
    if name in ("maximum", "minimum"):
        flat = []
        for a in args:
            if a.op == "op" and a.args[0] == name:
                flat.extend(a.args[1])
            else:
                flat.append(a)
        flat = sorted(set(flat), key=lambda t: t.dig)
        nums = [a for a in flat if is_num(a)]
        if len(nums) > 1:
            best = (max if name == "maximum" else min)(a.args[1] for a in nums)
            flat = sorted([a for a in flat if not is_num(a)] + [const(best)], key=lambda t: t.dig)
        if len(flat) == 1:
            return flat[0]
        return mk("op", name, tuple(flat), ())
    if name == "mse_loss":
        a, b = args
        red = d.get("reduction")
        diff = sub(a, b)
        sq = power(diff, 2)
        if red is None:
            return op("mean", (sq,))
        if is_str(red) and red.args[1] == "sum":
            return op("sum", (sq,))
        if is_str(red) and red.args[1] == "none":
            return sq
        return mk("op", "mse_loss", tuple(sorted((a, b), key=lambda t: t.dig)), kw)
    if name in ("smooth_l1_loss", "l1_loss"):
        a, b = sorted(args, key=lambda t: t.dig)
        return mk("op", name, (a, b), kw)
    if name == "where":
        c, a, b = args
        if c.op == "not":
            return op("where", (c.args[0], b, a))
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return mk("op", "where", (c, a, b), ())
    if name == "masked_fill":
        return op("where", (args[1], args[2], args[0]))
    if name in ("isinstance",):
        return mk("op", name, args, kw)
    if name == "cat" or name == "stack":
        a = args[0]
        if a.op == "tuple":
            a = mk("list", *a.args)
        if a.op == "list" and len(a.args) == 1 and name == "cat":
            return a.args[0]
        if name == "cat" and a.op == "list" and (_cidx(d.get("dim", ZERO)) or 0) < 0:
            for x in a.args:  # the same dimension counted from the front, where the rank is known
                at = {"reshape": 1, "full": 0}.get(x.args[0]) if x.op == "op" else None
                if at is not None and len(x.args[1]) == 2 and x.args[1][at].op == "tuple" and x.args[1][at].args and not any(
                        y.op == "star" for y in x.args[1][at].args):
                    e = len(x.args[1][at].args) + _cidx(d["dim"])
                    kw = tuple((n, const(e) if n == "dim" else v) for n, v in kw)
                    break
        return mk("op", name, (a,), kw)
    if name == "ceil" or name == "floor":
        if is_num(args[0]):
            import math

            return const(getattr(math, name)(args[0].args[1]))
    if name == "len":
        return length(args[0])
    if name in ("squeeze", "unsqueeze") and args and args[0].op == "not":
        return not_(op(name, (args[0].args[0],) + tuple(args[1:]), dict(kw) if kw else None))
    if name == "squeeze" and args[0].op == "op" and args[0].args[0] == "unsqueeze" and dict(args[0].args[2]).get("dim") is d.get("dim"):
        return args[0].args[1][0]
    if name in ("squeeze", "unsqueeze") and args[0].op == "op" and args[0].args[0] in REDUCTIONS:
        inner = dict(args[0].args[2])
        if same_dim(inner.get("dim"), d.get("dim")):
            if name == "squeeze" and inner.get("keepdim") is TRUE:
                return op(args[0].args[0], args[0].args[1], tuple((k, v) for k, v in args[0].args[2] if k != "keepdim"))
            if name == "unsqueeze" and "keepdim" not in inner and inner.get("dim") is not None:
                return op(args[0].args[0], args[0].args[1], tuple(sorted(args[0].args[2] + (("keepdim", TRUE),))))
    if name in LINEAR:
        a = args[0]
        if a.op == "poly":
            k, p = content(a)
            if k != 1:
                return scale(k, op(name, (p,) + args[1:], kw))
        elif name in ("sum", "mean") and is_num(a) and name == "mean":
            return a
    if name == "T" and args[0].op == "op" and args[0].args[0] == "T":
        return args[0].args[1][0]
    if name == "dim" and args[0].op == "op" and args[0].args[0] in ("full_like",):
        return op("dim", (args[0].args[1][0], args[1]))
    if name == "dim" and args[1] is ZERO:
        return length(args[0])
    if name in ("full", "full_like") and len(args) == 2 and args[1] is not ONE and args[1] is not ZERO and (
            args[1].op != "const" and args[1] is not sym("empty") or is_num(args[1])):
        return mul(args[1], mk("op", name, (args[0], ONE), tuple(sorted(kw))))
    return mk("op", name, args, tuple(sorted(kw)))


T.REBUILD["op"] = lambda name, args, kw: op(name, args, kw)


def pow_(a, b):
    if is_num(b):
        return power(a, b.args[1])
    if a is ONE:
        return ONE
    if is_num(a) and a.args[1] > 0 and all(c < 0 for c, m in T._as_poly(b)):
        return power(mk("op", "pow", (a, neg(b)), ()), -1)
    if a.op == "poly" or True:
        # a^(k*x): keep
        return mk("op", "pow", (a, b), ())


def _exp(a):
    if a is ZERO:
        return ONE
    parts = T._as_poly(a)
    out = ONE
    if len(parts) > 8:
        return mk("op", "exp", (a,), ())
    for c, m in parts:
        if not m:
            out = mul(out, mk("op", "exp", (const(c),), ()))
            continue
        base = T._mk_poly({m: Fraction(1)})
        if base.op == "op" and base.args[0] == "log":
            e = base.args[1][0]
            out = mul(out, power(e, c))
        elif base.op == "op" and base.args[0] == "log_softmax":
            out = mul(out, power(mk("op", "softmax", *base.args[1:]), c))
        else:
            out = mul(out, power(mk("op", "exp", (base,), ()), c))
    return out


def _log(a):
    if a is ONE:
        return ZERO
    parts = T._as_poly(a)
    if len(parts) == 1:
        c, m = parts[0]
        if len(m) > 1 or (m and (m[0][1] != 1 or c != 1)):
            s = []
            if c != 1:
                s.append(mk("op", "log", (const(c),), ()))
            for x, p in m:
                s.append(scale(p, _log(x)))
            return add(*s)
    if a.op == "op" and a.args[0] == "exp":
        return a.args[1][0]
    return mk("op", "log", (a,), ())


def length(x):
    if x.op in ("list", "tuple"):
        if not any(e.op == "star" for e in x.args):
            return const(len(x.args))
    if x.op == "dict":
        return const(len(x.args))
    if x.op == "map":
        return x.args[1]
    if x.op == "const" and x.args[0] == "str":
        return const(len(x.args[1]))
    if x.op == "concat":
        return add(*[length(a) for a in x.args])
    if x.op == "op" and x.args[0] in ("sorted", "keys", "values_of", "items"):
        return length(x.args[1][0])
    if x.op == "op" and x.args[0] == "range":
        return range_len(*x.args[1])
    if x.op == "op" and x.args[0] == "full_like":
        return length(x.args[1][0])
    if x.op == "op" and x.args[0] == "linspace" and len(x.args[1]) == 3:
        return x.args[1][2]
    if x.op == "op" and x.args[0] == "full":
        if x.args[1][0].op in ("tuple", "list") and x.args[1][0].args and x.args[1][0].args[0].op != "star":
            return x.args[1][0].args[0]
        if x.args[1][0].op == "len":
            return x.args[1][0]
    if x.op == "op" and x.args[0] == "bounded" and x.args[1][0] is mk("list"):
        return const(0)
    if x.op == "ite":
        a, b = length(x.args[1]), length(x.args[2])
        if a.op != "len" or b.op != "len" or any(q.op == "op" and q.args[0] == "range" for q in x.args[1:]):
            return ite(x.args[0], a, b)
    if x.op == "item" and x.args[0].op == "op" and x.args[0].args[0] == "nonzero" and _cidx(x.args[1]) is not None:
        return mk("len", item(x.args[0], const(0)))  # one position per entry, in every dimension
    if x.op == "item" and x.args[1].op == "slice":
        # the first half (third, ...) of a sequence
        lo, hi, st = x.args[1].args
        if lo is NONE and st is NONE and hi.op == "op" and hi.args[0] == "floordiv" and hi.args[1][0] is mk("len", x.args[0]) and (_cidx(hi.args[1][1]) or 0) >= 1:
            return hi
        n = length(x.args[0])
        if st is NONE and (lo is NONE or hi is NONE) and within(lo, x.args[0]) and within(hi, x.args[0]):
            return sub(n if hi is NONE else hi, ZERO if lo is NONE else lo)
        cl, ch = _cidx(lo), _cidx(hi)
        if st is NONE and (lo is NONE and ch is not None and ch < 0 or hi is NONE and cl is not None and cl > 0):
            return range_len(ZERO, add(n, const(ch if lo is NONE else -cl)), ONE)  # all but the last (first) few
    return mk("len", x)


T.REBUILD["len"] = length
T.REBUILD["set"] = lambda *a: mk("set", *sorted(set(a), key=lambda t: t.dig))


def turned(m):
    """rows and columns of a table of numbers exchanged"""
    if m.op != "map" or m.args[2].op != "map":
        return None
    i, j = T.fresh("i"), T.fresh("j")
    row = beta(m, 2, i)
    if row.op != "map" or T.occurs(row.args[1], i):
        return None
    return close("map", [row.args[1], close("map", [m.args[1], beta(row, 2, j)], [i])], [j])


def parted(v, n):
    """the slices that torch.split(x, size) unpacked into n names gives"""
    if not (v.op == "op" and v.args[0] == "split"):
        return None
    x, k = v.args[1][0], dict(v.args[2])
    dim, size = _cidx(k.get("dim", ZERO)), k.get("size")
    if dim not in (0, 1) or size is None:
        return None
    if size.op in ("list", "tuple"):
        if len(size.args) != n:
            return None
        ends = [ZERO]
        for z in size.args:
            ends.append(add(ends[-1], z))
    elif size.op in ("map", "fmap", "concat"):
        return None
    else:
        ends = [mul(const(i), size) for i in range(n + 1)]
    out = []
    for i in range(n):
        s = mk("slice", NONE if i == 0 else ends[i], NONE if i == n - 1 else ends[i + 1], NONE)
        out.append(item(x, s if dim == 0 else mk("tuple", mk("slice", NONE, NONE, NONE), s)))
    return mk("tuple", *out)


def within(k, x):
    """k is between 0 and the length of x"""
    if k is ZERO or k is NONE:
        return True
    n = length(x)
    if k is n:
        return True
    if k.op == "op" and k.args[0] == "floordiv" and k.args[1][0] is n:
        return (_cidx(k.args[1][1]) or 0) >= 1
    if k.op == "op" and k.args[0] == "int" and k.args[1][0].op == "poly" and len(k.args[1][0].args) == 1:
        c, m = k.args[1][0].args[0]
        return 0 <= c <= 1 and len(m) == 1 and m[0][0] is n and m[0][1] == 1
    return False


def _nonneg(t):
    if t is NONE or _cidx(t) is not None and _cidx(t) >= 0 or t.op == "len":
        return True
    return t.op == "op" and t.args[0] == "floordiv" and all(_nonneg(x) for x in t.args[1])


def range_len(a, b, s):
    if is_num(s):
        if s.args[1] == 1:
            return sub(b, a)
        if s.args[1] == -1:
            return sub(a, b)
    return mk("op", "rangelen", (a, b, s), ())


# --------------------------------------------------------------- projections


ENUM_VALUE = None  # (enum class, member) -> literal value, set by the interpreter


def attr(base, name):
    if base.op == "enum" and name == "value" and ENUM_VALUE is not None:
        v = ENUM_VALUE(*base.args)
        if v is not None:
            return v
    if base.op == "rec":
        for k, v in base.args[1]:
            if k == name:
                return v
    if base.op == "ite":
        leaves = _leaves(base)
        if any(l.op in ("rec",) for l in leaves) or all(l.op in ("rec", "tuple", "const") for l in leaves):
            return ite(base.args[0], attr(base.args[1], name), attr(base.args[2], name))
    if base.op == "tuple" and len(base.args) == 2 and name in ("values", "indices"):
        return base.args[0 if name == "values" else 1]
    if name in ("data", "real"):
        return base
    if name in ("T", "mT"):
        return op("T", (base,))
    if name == "shape":
        return op("shape", (base,))
    if base.op == "dict" and name in ("keys",):
        pass
    return mk("attr", base, name)


def _call(f, args, kw):
    if any(isinstance(a, Term) and a.op == "star" and a.args[0].op in ("tuple", "list") for a in args):
        flat = []
        for a in args:
            if a.op == "star" and a.args[0].op in ("tuple", "list"):
                flat.extend(a.args[0].args)
            else:
                flat.append(a)
        args = tuple(flat)
    return mk("call", f, args, kw)


T.REBUILD["call"] = _call
T.REBUILD["attr"] = attr


def _leaves(t):
    if t.op == "ite":
        return _leaves(t.args[1]) + _leaves(t.args[2])
    return [t]


def _cidx(k):
    if is_num(k) and k.args[1].denominator == 1:
        return int(k.args[1])
    return None


def mask(k):
    """an index that is a product of conditions is their conjunction"""
    if k.op == "poly" and len(k.args) == 1 and k.args[0][0] == 1 and len(k.args[0][1]) > 1 and all(
            a.op in ("cmp", "and", "or", "not") for a, p in k.args[0][1]):
        return and_(*[a for a, _ in k.args[0][1]])
    return k


def item(base, key):
    key = mask(key)
    if key.op == "tuple" and any(k.op == "op" and k.args[0] == "arange" for k in key.args):
        key = mk("tuple", *[op("range", k.args[1]) if k.op == "op" and k.args[0] == "arange" and len(k.args[1]) == 3 and not k.args[2] else k for k in key.args])
    b = base.op
    k = _cidx(key)
    if b == "call" and base.args[0].op == "mod" and base.args[0].args[0] == "itertools.count" and not base.args[1] and not base.args[2]:
        if key.op != "slice":
            return key
    if b == "call" and k == 2 and base.args[0].op == "attr" and base.args[0].args[1] == "step" and (
            base.args[0].args[0].op == "attr" and base.args[0].args[0].args[1].lstrip("_") == "env"
            or base.args[0].args[0].op == "sym" and base.args[0].args[0].args[0].lstrip("_") == "env"):
        return op("truth", (mk("item", base, key),))  # the environment protocol: the episode is over or it is not
    if b in ("list", "tuple"):
        if k is not None and not any(e.op == "star" for e in base.args):
            if -len(base.args) <= k < len(base.args):
                return base.args[k]
        if key.op == "slice" and all(x is NONE or _cidx(x) is not None for x in key.args):
            if not any(e.op == "star" for e in base.args):
                s = slice(*[None if x is NONE else _cidx(x) for x in key.args])
                return mk(b, *base.args[s])
    if b == "item" and key.op in ("fresh", "bv") and base.args[1].op == "slice":
        # element of a contiguous slice at a loop position (in range by construction of the loop)
        lo, hi, stp = base.args[1].args
        if stp is NONE and (_nonneg(lo) or within(lo, base.args[0])):
            return item(base.args[0], key if lo is NONE else add(lo, key))
    if b == "concat" and k is not None and k < 0 and base.args[-1].op in ("list", "tuple") and -k <= len(base.args[-1].args):
        return item(base.args[-1], key)
    if b == "dict":
        for kk, v in base.args:
            if kk is key:
                return v
    if b == "map":
        if k is None or k >= 0:
            if key.op != "slice" and key.op != "tuple":
                return beta(base, 2, key)
    if b == "setitem":
        if base.args[1] is key:
            return base.args[2]
        if key.op in ("const", "enum") and base.args[1].op in ("const", "enum"):
            return item(base.args[0], key)
    if b == "op" and base.args[0] == "shape" and k is not None:
        return op("dim", (base.args[1][0], key))
    if b == "op" and base.args[0] == "zipl" and key.op != "slice":
        return mk("tuple", *[item(x, key) for x in base.args[1]])
    if b == "op" and base.args[0] == "range" and key.op != "slice":
        a, _, s = base.args[1]
        if k is None or k >= 0:
            return add(a, mul(s, key))
    if b == "op" and base.args[0] == "items" and key.op != "slice":
        dd = base.args[1][0]
        kk = item(dd, key) if dd.op != "dict" or True else None
        kk = mk("keyat", dd, key)
        return mk("tuple", kk, item(dd, kk))
    if b == "op" and base.args[0] == "keys" and key.op != "slice":
        return mk("keyat", base.args[1][0], key)
    if b == "op" and base.args[0] == "values_of" and key.op != "slice":
        dd = base.args[1][0]
        return item(dd, mk("keyat", dd, key))
    if b == "dictmap" and key.op == "keyat" and key.args[0] is base:
        return beta(base, 4, key.args[1])
    if b == "dictmap" and base.args[2] is TRUE and key.op != "slice":
        probe = mk("sym", "?entry")
        kk = beta(base, 3, probe)
        if kk.op == "keyat" and kk.args[1] is probe:
            v = T.subst(beta(base, 4, probe), {kk: key})
            if not T.contains(v, lambda x: x is probe):
                return v
    if b == "ite":
        ls = _leaves(base)
        if all(l.op in ("list", "tuple", "dict", "rec", "const", "map", "setitem") for l in ls) or any(
            l.op in ("tuple", "list", "dict") for l in ls
        ):
            return ite(base.args[0], item(base.args[1], key), item(base.args[2], key))
    if b == "const" and base.args[0] == "str" and k is not None and -len(base.args[1]) <= k < len(base.args[1]):
        return const(base.args[1][k])
    return mk("item", base, key)


T.REBUILD["item"] = item


def _keyat(d, i):
    if d.op == "dictmap":
        return beta(d, 3, i)
    k = _cidx(i)
    if d.op == "dict" and k is not None and 0 <= k < len(d.args):
        return d.args[k][0]
    return mk("keyat", d, i)


T.REBUILD["keyat"] = _keyat


def setitem(base, key, val):
    key = mask(key)
    k = _cidx(key)
    if base.op == "list" and k is not None and -len(base.args) <= k < len(base.args):
        a = list(base.args)
        a[k] = val
        return mk("list", *a)
    if base.op == "dict" and key.op in ("const", "enum") and all(kk.op in ("const", "enum") for kk, _ in base.args):
        out = []
        done = False
        for kk, v in base.args:
            if kk is key:
                out.append((kk, val))
                done = True
            else:
                out.append((kk, v))
        if not done:
            out.append((key, val))
        return mk("dict", *out)
    if base.op == "setitem" and base.args[1] is key:
        return setitem(base.args[0], key, val)
    if val.op == "op" and val.args[0] == "full_like" and val.args[1][0] is item(base, key):
        val = val.args[1][1]
    if key.op in ("not", "cmp", "and", "or") and val.op in ("const", "sym") and base.op not in ("dict", "updated"):
        return op("where", (key, val, base))  # a mask selects the entries set to one value
    if val.op == "setitem" and key.op == "const" and key.args[0] == "num" and val.args[1].op != "tuple" and (
        base.op == "op" and base.args[0] in ("full", "full_like", "arange", "eye") and val.args[0] is item(base, key)
    ):
        return setitem(base, mk("tuple", key, val.args[1]), val.args[2])  # a[i][j] = v on an array
    return mk("setitem", base, key, val)


T.REBUILD["setitem"] = setitem


def namekey(k):
    """a key that is a string"""
    return k.op == "const" and k.args[0] == "str" or k.op == "fmt" or k.op == "op" and k.args[0] in ("fmt", "str")


def distinct_keys(a, b):
    if a.op == "const" and b.op == "const":
        return a is not b
    for x, y in ((a, b), (b, a)):  # a name with something added is another name
        if x.op == "fmt" and y in x.args and any(z.op == "const" and z.args[0] == "str" and z.args[1] for z in x.args):
            return True
    return False


def d_index(kw):
    """the slice that selecting the first n positions along the first, second or last dimension is"""
    d = dict(kw)
    dim, ind = d.get("dim"), d.get("index")
    if ind is None or _cidx(dim) not in (0, 1, -1) or not (ind.op == "op" and ind.args[0] == "arange" and len(ind.args[1]) == 3):
        return None
    lo, hi, step = ind.args[1]
    if lo is not ZERO or step is not ONE:
        return None
    s = mk("slice", NONE, hi, NONE)
    full = mk("slice", NONE, NONE, NONE)
    return {0: s, 1: mk("tuple", full, s), -1: mk("tuple", const(Ellipsis), s)}[_cidx(dim)]


def delitem(base, key):
    return op("without", (base, key)) if namekey(key) else mk("delitem", base, key)


T.REBUILD["delitem"] = delitem


def updated(base, d):
    if d.op == "dictmap" and base.op == "op" and base.args[0] == "full" and d.args[2] is T.TRUE and d.args[3].op == "bv":
        lv, n, _, k, v = d.args
        if k.args[0] == lv and base.args[1][0] in (n, mk("tuple", n), mk("list", n)):
            return op("tensor", (mk("map", lv, n, v),))  # every entry of a vector assigned
    return mk("updated", base, d)


T.REBUILD["updated"] = updated


def concat(a, b):
    """list concatenation"""
    if a.op == "tuple" and b.op == "tuple":
        return mk("tuple", *(a.args + b.args))

    def parts(x):
        if x.op == "concat":
            return list(x.args)
        if x.op == "tuple":
            return [mk("list", *x.args)]
        return [x]

    out = []
    for p in parts(a) + parts(b):
        if p.op == "list" and not p.args:
            continue
        if out and out[-1].op == "list" and p.op == "list":
            out[-1] = mk("list", *(out[-1].args + p.args))
        else:
            out.append(p)
    if not out:
        return mk("list")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


T.REBUILD["concat"] = lambda *a: _fold_concat(a)


def _fold_concat(a):
    r = a[0]
    for x in a[1:]:
        r = concat(r, x)
    return r


# --------------------------------------------------------------- binders
# layout: args[0] = hb (height used by the bound variables of this node)
BODY = {"map": (2,), "fmap": (2, 3), "dictmap": (2, 3, 4), "sum": (2,), "lam": (2,), "any": (2,), "all": (2,),
        "last": (2,), "fold": (3,), "while": (1, 3), "flat": (2,)}


COUNTED = ("map", "fmap", "dictmap", "sum", "any", "all", "last", "fold", "flat")


def _ends(t, n, idx):
    """comparisons of a loop position (0 <= idx < n) with the first or last one, written as inequalities"""
    m = {}
    for e in (ZERO, sub(n, ONE)):
        c = cmp("==", idx, e)
        if c not in (TRUE, FALSE):
            m[c] = not_(cmp("<", ZERO, idx)) if e is ZERO else not_(cmp("<", idx, e))
    return _submap(t, m)


def _filtered(opn, args, fr):
    """a loop over the elements of a list that satisfy a condition: a loop over the list that skips the others"""
    n, idx = args[0], fr[0]
    if n.op != "len" or n.args[0].op != "fmap" or opn not in ("fold", "sum", "map", "fmap", "flat", "any", "all"):
        return args
    fm = n.args[0]
    e = mk("item", fm, idx)
    c, v = beta(fm, 2, idx), beta(fm, 3, idx)
    hole = T.fresh("e")
    body = [_submap(a, {e: hole}) for a in args[1:]]

    def free(x):
        if isinstance(x, Term):
            return not T.occurs(x, idx)
        return all(free(y) for y in x) if isinstance(x, tuple) else True

    if not all(free(b) for b in body):
        return args
    body = [_submap(b, {hole: v}) for b in body]
    m = fm.args[1]
    if opn == "fold":
        inits, ups, which = body
        return [m, inits, tuple(ite(c, u, f) for u, f in zip(ups, fr[1:])), which]
    if opn == "sum":
        return [m, ite(c, body[0], ZERO)]
    if opn == "map":
        return ["fmap", m, c, body[0]]
    if opn == "fmap":
        return [m, and_(c, body[0]), body[1]]
    if opn == "flat":
        return [m, ite(c, body[0], mk("list"))]
    if opn == "any":
        return [m, and_(c, body[0])]
    return [m, or_(not_(c), body[0])]


def _counted(opn):
    bpos = BODY[opn]

    def make(hb, n, *rest):
        v = bv(hb, 0)
        return mk(opn, hb, n, *[_ends(a, n, v) if i + 2 in bpos else a for i, a in enumerate(rest)])

    return make


def bv(h, i=0):
    return mk("bv", h, i)


def _bh(x):
    if isinstance(x, Term):
        return x.height
    if isinstance(x, tuple):
        return max([_bh(y) for y in x], default=0)
    return 0


def _submap(x, m):
    if isinstance(x, Term):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(_submap(y, m) for y in x)
    return x


def close(opn, args, fr):
    """args: list without hb; body positions (minus 1) are closed over the fresh syms fr."""
    bpos = [p - 1 for p in BODY[opn]]
    if opn in COUNTED and fr and fr[0] is not None:
        args = _filtered(opn, [_ends(a, args[0], fr[0]) if i in bpos else a for i, a in enumerate(args)], fr)
        if args[0] == "fmap":
            return close("fmap", args[1:], fr)
    hb = 1 + max([_bh(args[p]) for p in bpos], default=0)
    m = {f: bv(hb, i) for i, f in enumerate(fr) if f is not None}
    out = []
    for i, a in enumerate(args):
        if i in bpos:
            a = _submap(a, m)
            a = _canon_in(a)
        out.append(a)
    bvs = set(m.values())
    # hoist conditions that do not depend on the bound variables
    conds = set()
    for p in bpos:
        _collect(out[p], conds)
    # a condition may be hoisted when it mentions none of this binder's variables
    hoist = [c for c in conds if not T.contains(c, lambda x: x in bvs)]
    if hoist and len(hoist) <= 3:
        c = min(hoist, key=lambda t: (T.shape_dig(t), t.dig))
        yes = [(_assume_in(a, c, True) if i in bpos else a) for i, a in enumerate(out)]
        no = [(_assume_in(a, c, False) if i in bpos else a) for i, a in enumerate(out)]
        return ite(c, _finish(opn, hb, yes), _finish(opn, hb, no))
    return _finish(opn, hb, out)


def _canon_in(a):
    if isinstance(a, Term):
        return canon(a, 7)
    if isinstance(a, tuple):
        return tuple(_canon_in(x) for x in a)
    return a


def _collect(a, conds):
    if isinstance(a, Term):
        conds.update(cond_atoms(a))
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, conds)


def _assume_in(a, c, v):
    if isinstance(a, Term):
        return assume(a, c, v)
    if isinstance(a, tuple):
        return tuple(_assume_in(x, c, v) for x in a)
    return a


def _finish(opn, hb, args):
    # reopen through fresh to renormalise height if it shrank
    bpos = [p - 1 for p in BODY[opn]]
    h2 = 1 + max([_bh(args[p]) for p in bpos], default=0)
    if h2 != hb:
        nv = {}
        for p in bpos:
            for s in _subs(args[p]):
                if s.op == "bv" and s.args[0] == hb:
                    nv[s] = bv(h2, s.args[1])
        if nv and h2 < hb:
            args = [(_submap(a, nv) if i in bpos else a) for i, a in enumerate(args)]
            hb = h2
    v = bv(hb, 0)
    if opn == "map":
        n, body = args
        # identity map over a sequence
        if body.op == "item" and body.args[1] is v and not T.occurs(body.args[0], v) and n is length(body.args[0]):
            return body.args[0]
        k = _cidx(n)
        r = mk("map", hb, n, body)
        if k is not None and 0 <= k <= 12:
            return mk("list", *[beta(r, 2, const(i)) for i in range(k)])
        return r
    if opn == "fmap":
        n, c, body = args
        c = T.canon_bool(c)
        if c is TRUE:
            return _finish("map", hb, [n, body])
        if c is FALSE:
            return mk("list")
        return mk("fmap", hb, n, c, body)
    if opn == "flat":
        n, body = args
        k = _cidx(n)
        if k is not None and 0 <= k <= 12:
            r = mk("flat", hb, n, body)
            out = mk("list")
            for i in range(k):
                out = concat(out, beta(r, 2, const(i)))
            return out
    if opn == "sum":
        n, body = args
        if n.op == "const" and _cidx(n) is not None and 0 <= _cidx(n) <= 12:
            r = mk("sum", hb, n, body)
            return add(*[beta(r, 2, const(i)) for i in range(_cidx(n))])
        out = []
        for c, m in T._as_poly(body):
            ind = [(a, p) for a, p in m if not T.occurs(a, v)]
            dep = [(a, p) for a, p in m if T.occurs(a, v)]
            coef = mul(const(c), *[power(a, p) for a, p in ind])
            if not dep:
                out.append(mul(coef, n))
            else:
                b2 = T._mk_poly({tuple(dep): Fraction(1)})
                out.append(mul(coef, mk("sum", hb, n, b2)))
        return add(*out)
    if opn in ("any", "all"):
        n, body = args
        body = T.canon_bool(body)
        if body is FALSE and opn == "any":
            return FALSE
        if body is TRUE and opn == "all":
            return TRUE
        if opn == "any":
            return not_(_finish("all", hb, [n, not_(body)]))
        return mk("all", hb, n, body)
    if opn == "fold":
        n, inits, ups, which = args
        if ups[which] is bv(hb, which + 1):
            return inits[which]
    if opn == "last":
        n, body, init = args
        if not T.occurs(body, v) and False:
            return body
    return mk(opn, hb, *args)


def _subs(a):
    out = set()
    if isinstance(a, Term):
        out |= T.subterms(a)
    elif isinstance(a, tuple):
        for x in a:
            out |= _subs(x)
    return out


def open_(t):
    """-> (fresh list, args without hb with bodies opened)"""
    hb = t.args[0]
    bpos = BODY[t.op]
    idx = set()
    for p in bpos:
        for s in _subs(t.args[p]):
            if s.op == "bv" and s.args[0] == hb:
                idx.add(s.args[1])
    n = max(idx, default=0) + 1
    fr = [T.fresh("b") for _ in range(n)]
    m = {bv(hb, i): f for i, f in enumerate(fr)}
    args = [(_submap(a, m) if i in bpos else a) for i, a in enumerate(t.args)]
    return fr, args[1:]


def beta(t, pos, *vals):
    hb = t.args[0]
    m = {bv(hb, i): v for i, v in enumerate(vals)}
    return subst(t.args[pos], m)


_orig_rebuild = T.rebuild


def rebuild2(t, f):
    if t.op in BODY:
        ch = False
        # quick test: do any children change without opening?
        hb = t.args[0]

        def probe(a):
            if isinstance(a, Term):
                return f(a) is not a
            if isinstance(a, tuple):
                return any(probe(x) for x in a)
            return False

        for a in t.args[1:]:
            if probe(a):
                ch = True
                break
        if not ch:
            return t
        fr, args = open_(t)

        def go(a):
            if isinstance(a, Term):
                return f(a)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a

        return close(t.op, [go(a) for a in args], fr)
    return _orig_rebuild(t, f)


T.rebuild = rebuild2
rebuild = rebuild2


# --------------------------------------------------------------- gating


_ca_memo = {}


def cond_atoms(t):
    """atomic conditions governing gates of t (outside binders), free of gates themselves"""
    if not (t.flags & T.F_ITE):
        return frozenset()
    r = _ca_memo.get(t)
    if r is not None:
        return r
    out = set()

    def atoms(c):
        if c.op in ("and", "or"):
            for x in c.args:
                atoms(x)
        elif c.op == "not":
            atoms(c.args[0])
        elif c.op == "ite":
            out.update(cond_atoms(c))
        elif c.flags & T.F_ITE:
            out.update(cond_atoms(c))
        elif c.op != "const":
            out.add(c)

    if t.op == "ite":
        atoms(t.args[0])
        out.update(cond_atoms(t.args[1]))
        out.update(cond_atoms(t.args[2]))
    elif t.op in ("and", "or", "not"):
        atoms(t)
    elif t.op in BODY:
        bp = BODY[t.op]
        for i, a in enumerate(t.args):
            if i not in bp:
                _collect(a, out)
    else:
        for c in T.children(t):
            out.update(cond_atoms(c))
    r = frozenset(out)
    _ca_memo[t] = r
    return r


_as_memo = {}


def assume_map(c, v):
    m = {c: const(v)}
    if c.op == "cmp":
        k = c.args[0]
        if v and k == "is":
            a, b = c.args[1], c.args[2]
            if a is NONE:
                a, b = b, a
            if b is NONE and a.op != "const":
                m[a] = NONE
        elif v and k == "==":
            a, b = c.args[1], c.args[2]
            if a.op in ("const", "enum"):
                a, b = b, a
            if b.op in ("const", "enum") and a.op not in ("const", "enum"):
                m[a] = b
        elif v and k == "==0":
            d = c.args[1]
            ps = T._as_poly(d)
            ats = [(cc, mm) for cc, mm in ps if mm]
            if len(ats) == 1 and len(ats[0][1]) == 1 and ats[0][1][0][1] == 1:
                k0 = sum((cc for cc, mm in ps if not mm), Fraction(0))
                m[ats[0][1][0][0]] = const(-k0 / ats[0][0])
        elif not v and k == ">0" and c.args[1].op == "len":
            m[c.args[1]] = ZERO
    elif c.op == "op" and c.args[0] == "truth" and v:
        x = c.args[1][0]
        m[cmp("is", x, NONE)] = FALSE
    return m


def assume(t, c, v):
    key = (t, c, v)
    r = _as_memo.get(key)
    if r is None:
        r = subst(t, assume_map(c, v))
        _as_memo[key] = r
        if len(_as_memo) > 400000:
            _as_memo.clear()
    return r


def canon(t, limit=10):
    if not (t.flags & T.F_ITE):
        return t
    cs = cond_atoms(t)
    if not cs or len(cs) > limit:
        return t
    c = min(cs, key=lambda x: (T.shape_dig(x), x.dig))
    return ite(c, canon(assume(t, c, True), limit), canon(assume(t, c, False), limit))


class Budget(Exception):
    pass


class Equiv:
    """Congruence of two value graphs by gate cofactoring (ROBDD-style), with the first differing leaf."""

    def __init__(self, budget=4000):
        self.memo = {}
        self.budget = budget
        self.diff = None  # (path, a, b)

    def eq(self, a, b, path=()):
        if a is b:
            return True
        key = (a, b)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        cs = cond_atoms(a) | cond_atoms(b)
        if not cs:
            if self.diff is None:
                self.diff = (path, a, b)
            r = False
        else:
            # prefer conditions shared by both sides
            sh = cond_atoms(a) & cond_atoms(b)
            c = min(sh or cs, key=lambda x: (x.size, x.dig))
            r = self.eq(assume(a, c, True), assume(b, c, True), path + ((c, True),)) and self.eq(
                assume(a, c, False), assume(b, c, False), path + ((c, False),)
            )
        self.memo[key] = r
        return r


def implies_true(cond, goal, budget=2000):
    """is goal True whenever cond is True (propositionally over atoms)?"""
    e = Equiv(budget)
    return e.eq(or_(not_(cond), goal), TRUE)


# --------------------------------------------------------------- detach handling


def detach(t):
    if t.op in ("const", "enum", "sym", "detach", "func", "cls", "mod", "closure"):
        return t
    if t.op == "poly":
        return add(*[mul(const(c), *[power(detach(a), p) for a, p in m]) for c, m in t.args])
    if t.op == "ite":
        return ite(t.args[0], detach(t.args[1]), detach(t.args[2]))
    if t.op in ("tuple", "list"):
        return mk(t.op, *[detach(a) for a in t.args])
    if t.op == "rec":
        return mk("rec", t.args[0], tuple((k, detach(v)) for k, v in t.args[1]))
    if t.op in ("cmp", "and", "or", "not", "lam", "ref"):
        return t
    return mk("detach", t)


T.REBUILD["detach"] = detach
for _o in COUNTED:
    T.REBUILD[_o] = _counted(_o)

_strip_memo = {}


def strip(t):
    """remove gradient barriers"""
    if not (t.flags & T.F_DET):
        return t

    def go(x):
        if not (x.flags & T.F_DET):
            return x
        r = _strip_memo.get(x)
        if r is None:
            if x.op == "detach":
                r = go(x.args[0])
            else:
                r = rebuild(x, go)
            _strip_memo[x] = r
        return r

    return go(t)


NONDIFF = {"argmax", "argmin", "floor", "ceil", "round", "sign", "shape", "dim", "one_hot", "argsort", "multinomial",
           "full_like", "isnan", "bincount", "topk_i", "sort_i", "nonzero"}


def gradleaves(t):
    """opaque calls (after stripping) reachable through differentiable structure, not under a detach"""
    out = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in ("detach", "cmp", "and", "or", "not", "const", "len"):
            return
        if x.op == "ite":
            go(x.args[1])
            go(x.args[2])
            return
        if x.op == "op":
            if x.args[0] in NONDIFF:
                return
            if x.args[0] == "gather":
                go(x.args[1][0])
                return
            if x.args[0] == "where":
                go(x.args[1][1])
                go(x.args[1][2])
                return
        if x.op == "item":
            go(x.args[0])
            return
        if x.op == "call":
            out.add(strip(x))
            # gradient may flow through arguments too
            for a in x.args[1]:
                go(a)
            for _, a in x.args[2]:
                go(a)
            return
        for c in T.children(x):
            go(c)

    go(t)
    return out
