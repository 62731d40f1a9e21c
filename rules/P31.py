"""Keyed value containers of the off-policy library."""
T = "reagent.ope.estimators.types."


def run(cx):
    def same(cls, m, spec, *obs, **kw):
        cx.same(T + cls + "." + m, "ope_types." + spec, *(obs or ("ret",)), "raises=", **kw)

    same("TypeWrapper", "__hash__", "hashed")
    same("TypeWrapper", "__eq__", "equal")
    same("TypeWrapper", "__lt__", "less")
    O = dict(init=False, opaque={"_reset", "_normalize", "_to_key", "_to_value", "_new_item", "sort", "fill", "_init_values"})

    def o(cls, m, spec, *obs, **kw):
        k = dict(O)
        k["opaque"] = O["opaque"] - {m}
        k.update(kw)
        same(cls, m, spec, *obs, **k)

    o("Objects", "_init_values", "objects_init", "attrs:_key_to_index,_index_to_key,_values")
    o("Objects", "__getitem__", "get")
    o("Objects", "__setitem__", "put", lambda p: p.calls(kinds=("setitem", "call"), label="writes"))
    o("Objects", "__iter__", "pairs")
    o("Objects", "index_of", "index_of")
    o("Objects", "keys", "keys")
    o("Values", "_init_values", "values_init", "attrs:_key_to_index,_index_to_key,_values")
    o("Values", "_reset", "reset", "attrs:_unzipped,_keys,_probabilities,_is_normalized,_sorted", opaque=set())
    o("Values", "__getitem__", "get_value", opaque=set())
    o("Values", "sort", "order")
    o("Values", "replace", "replaced", "ret", "calls:_reset", lambda p: p.calls(kinds=("store", "setitem"), label="writes"))
    o("Values", "_normalize", "normalized", "attrs:_probabilities,_is_normalized")
    o("Values", "probability", "probability", "ret", "calls:_normalize")
    o("Values", "sample", "sample", "ret", "calls:_normalize")
    o("Values", "greedy", "greedy")
    o("Items", "__init__", "items_init", "attrs:_items,_reverse_lookup")
    o("Items", "index_of", "item_index")
    o("Items", "__int__", "as_count")
    o("Items", "fill", "fill")
    o("ActionSpace", "_new_item", "action_of")
    o("ActionSpace", "distribution", "distribution")
    o("ActionDistribution", "_to_key", "action_of")
    same("Trainer", "_sample", "subsample")
    o("Objects", "__init__", "objects_built", "calls:_init_values,_reset", init=True)
    o("Values", "__init__", "objects_built", "calls:_init_values,_reset", init=True)
    o("Values", "_to_value", "value_of", opaque=set())
    for m in ("__index__", "__int__"):
        same("TypeWrapper", m, "wrapped_int")
    same("TypeWrapper", "__ne__", "different")
    o("Items", "__getitem__", "item_at")
    o("Items", "__iter__", "item_iter")
    o("ActionSpace", "space", "space_of")
    same("Policy", "__init__", "policy_built", "attrs:_action_space,_device")
    same("Policy", "__call__", "queried", init=False, opaque={"_query"})
    same("Policy", "action_space", "action_space", init=False)
    same("Trainer", "__init__", "untrained", "attrs:_model")
