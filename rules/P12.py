"""Sum tree and prioritized replay."""
T = "reagent.replay_memory.sum_tree.SumTree."
B = "reagent.replay_memory.prioritized_replay_buffer.PrioritizedReplayBuffer."
store = lambda p: p.calls(kinds=("setitem",), label="stored elements")


def run(cx):
    cx.same(T + "__init__", "priority.tree_init", "written", "raises")
    cx.same(T + "_total_priority", "priority.total", "ret")
    cx.same(T + "get", "priority.get", "ret")
    cx.same(T + "set", "priority.set", "attrs:max_recorded_priority,nodes", "raises=", store, alts=["priority.set_indexed"])
    cx.same(T + "sample", "priority.sample", "ret", "raises=")
    cx.same(T + "stratified_sample", "priority.stratified", "ret", "raises=", opaque={"sample"})
    kw = dict(opaque={"_add_transition", "get_add_args_signature", "input_to_storage", "set", "get", "sample", "stratified_sample",
                      "is_valid_transition"})
    cx.same(B + "__init__", "priority.init", "written")
    cx.same(B + "_add", "priority.add", "calls:set,_add_transition", "raises=", **kw)
    cx.same(B + "sample_index_batch", "priority.sample_indices", "ret", "raises=", "calls:stratified_sample,sample", **kw)
    cx.same(B + "sample_transition_batch", "priority.sample_batch", "ret", opaque={
        "get_priority", "reagent.replay_memory.circular_replay_buffer.ReplayBuffer.sample_transition_batch"})
    cx.same(B + "set_priority", "priority.set_priority", "calls:set", **kw)
    cx.same(B + "get_priority", "priority.get_priority", "ret", **kw)
    cx.same(B + "get_transition_elements", "priority.elements", "ret")
