"""Circular replay buffer: insertion and validity bookkeeping."""
import ast

from sa import structure as S

M = "reagent.replay_memory.circular_replay_buffer."
B = M + "ReplayBuffer."
store = lambda p: p.calls(kinds=("setitem",), label="stored elements")


def writers(cx, name):
    """functions of the replay package that store to attribute name or to an element of it"""
    out = []
    for m in cx.ix.all_modules("reagent/replay_memory"):
        for f in S.functions(m):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == name:
                    if isinstance(n.ctx, (ast.Store, ast.Del)) or id(n) in stored(f.node):
                        out.append((f.qual, "%s:%d" % (f.module.path, n.lineno)))
    return out


def stored(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            v = n.value
            while isinstance(v, ast.Subscript):
                v = v.value
            out.add(id(v))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.endswith("_") \
                and not n.func.attr.startswith("_"):
            out.add(id(n.func.value))
    return out


def run(cx):
    kw = dict(opaque={"set_index_valid_status", "_check_add_types", "initialize_buffer", "_add_transition", "get_add_args_signature"})
    cx.same(B + "add", "replay.add", "calls:set_index_valid_status,_check_add_types,initialize_buffer,_add_transition",
            "attrs:_num_transitions_in_current_episode", "raises=", **kw)
    a = cx.same(B + "set_index_valid_status", "replay.set_valid", "attrs:_num_valid_indices,_is_index_valid")
    cx.same(B + "_add", "replay.add_store", "calls:_add_transition", "raises=", alts=["replay.add_store_new"], **kw)
    cx.same(B + "_add_transition", "replay.add_transition", "attrs:add_count", store)
    cx.same(B + "_check_add_types", "replay.check_types", "calls:validate", "raises=", **kw)
    cx.same(B + "sample_index_batch", "replay.sample_indices", "ret", "raises=")
    cx.same(B + "sample_all_valid_transitions", "replay.sample_all", "ret", opaque={"sample_transition_batch"})
    cx.same(B + "size", "replay.size", "ret")
    cx.same(B + "is_valid_transition", "replay.is_valid", "ret")
    cx.same(B + "cursor", "replay.cursor", "ret")
    b = cx.same(B + "__init__", "replay.init", "written", "raises=")
    allowed = set(a.it.evaluated) | set(b.it.evaluated)
    for name in ("_is_index_valid", "_num_valid_indices"):
        for f, line in writers(cx, name):
            cx.fact("validity bookkeeping has a single writer", f, "writes " + name, f in allowed,
                    "%s is written outside the validity setter and the constructor" % name, line)
    cx.same(B + "initialize_buffer", "replay.initialize", "written", "raises", "calls:_create_storage", opaque={
        "_create_storage", "make_replay_element", "get_storage_signature", "get_transition_elements"})
    cx.same(B + "_create_storage", "replay.create_storage", store, opaque={"create_storage", "get_storage_signature"})
    cx.same(B + "is_full", "replay.full", "ret")
    cx.same(B + "get_add_args_signature", "replay.add_signature", "ret", opaque={"get_storage_signature"})
    cx.same(B + "get_storage_signature", "replay.storage_signature", "ret", init=False)
    cx.same(B + "_add_zero_transition", "replay.zero_padding", "calls:_add", opaque={"_add"}, init=False)
