"""Replay sampling: n-step assembly, element storage, checkpointing."""
import ast

M = "reagent.replay_memory.circular_replay_buffer."
B = M + "ReplayBuffer."
store = lambda p: p.calls(kinds=("setitem",), label="stored elements")
LOW = {"sample_index_batch", "_get_steps", "_get_batch_for_indices", "_reduce_multi_step_reward", "_get_stack_for_indices",
       "_return_checkpointable_elements", "sample_to_output"}


def run(cx):
    kw = dict(opaque=LOW)
    cx.same(B + "sample_transition_batch", "replay.sample", "ret", **kw)
    cx.same(B + "_get_batch_for_indices", "replay.columns", "ret", **kw)
    cx.same(B + "_reduce_multi_step_reward", "replay.reward", "ret", **kw)
    cx.same(B + "_get_stack_for_indices", "replay.stack", "ret", **kw)
    cx.same(B + "_get_steps", "replay.steps", "ret", opaque=LOW - {"_get_steps"})
    cx.same(B + "get_transition_elements", "replay.elements", "ret")
    cx.same(B + "save", "replay.save", "calls:exists,save,dump,remove", lambda p: p.calls(kinds=("enter",), label="files written"), **kw)
    p = cx.same(B + "load", "replay.load", "raises=", store, **kw)
    q = cx.same(B + "_return_checkpointable_elements", "replay.checkpointable", "ret")
    if p is not None and q is not None:
        for attr in ("_is_index_valid", "_num_valid_indices"):
            fs = p.ran + q.ran
            ok = any(isinstance(n, ast.Attribute) and n.attr == attr or isinstance(n, ast.Constant) and n.value == attr
                     for f in fs for n in ast.walk(f.node))
            cx.fact("the state that sampling reads is restored by load", B + "load", attr, ok,
                    "%s is neither saved nor recomputed: a restored buffer cannot sample" % attr, p.fn.loc(), known=not ok)
    cx.same(B + "_generate_filename", "replay.filename", "ret")
    d, i, s = M + "DenseMetadata.", M + "IDListMetadata.", M + "IDScoreListMetadata."
    cx.same(d + "create_from_example", "replay.dense_example", "ret", "calls:validate", opaque={"validate"})
    cx.same(d + "zero_example", "replay.dense_zero", "ret")
    cx.same(d + "validate", "replay.dense_validate", "raises")
    cx.same(d + "input_to_storage", "replay.dense_in", "ret")
    cx.same(d + "sample_to_output", "replay.dense_out", "ret")
    cx.same(i + "zero_example", "replay.ids_zero", "ret")
    cx.same(i + "input_to_storage", "replay.same", "ret")
    cx.same(i + "sample_to_output", "replay.ids_out", "ret")
    cx.same(s + "zero_example", "replay.scored_zero", "ret")
    cx.same(s + "input_to_storage", "replay.same", "ret")
    cx.same(s + "sample_to_output", "replay.scored_out", "ret")
    cx.same(d + "create_storage", "replay.dense_storage", "ret")
    for x, v in ((i, "ids_validate"), (s, "scored_validate")):
        cx.same(x + "create_storage", "replay.object_storage", "ret")
        cx.same(x + "create_from_example", "replay.ids_example", "ret", "calls:validate", opaque={"validate"})
        cx.same(x + "validate", "replay." + v, "raises")
    cx.same(M + "make_replay_element", "replay.element_for", "ret", opaque={"create_from_example"})
