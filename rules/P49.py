"""Evolution strategies: mutation, reward-weighted update and agreement between workers."""
P = "reagent.training.gradient_free.evolution_pool."
E = P + "EvolutionPool."
W = "reagent.training.gradient_free.es_worker.EsWorker."


def run(cx):
    sub = {"populate_children", "compute_local_reward"}
    n = dict(init=False, opaque=sub)
    changes = lambda p: p.calls(kinds=("inplace", "store"), label="changes to parents and children")
    seeds = lambda p: p.calls("manual_seed", "populate_children", label="random draws")
    cx.same(E + "__init__", "evolution.pool_init", "attrs:es_params,tensor_sizes,seed,population_tensors,parent_tensors,optimizer", seeds,
            lambda p: p.calls(kinds=("store",), label="stored gradients", where=lambda v: "grad" in str(v.args[1].args[1])), opaque=sub)
    cx.same(E + "populate_children", "evolution.children", changes, seeds, lambda p: p.calls("normal_", label="mutations"), init=False)
    cx.same(E + "apply_global_reward", "evolution.apply_reward", changes, lambda p: p.calls("step", "populate_children", label="update"), **n)
    cx.same(E + "compute_all_local_rewards", "evolution.local_rewards", "ret", **n)
    cx.same(P + "OneMaxEvolutionPool.compute_local_reward", "evolution.one_max", "ret", init=False)
    cx.same(W + "__init__", "evolution.worker_init", "attrs:iteration,individual_pool,es_params,process_group,num_nodes")
    pool = {"compute_all_local_rewards", "apply_global_reward", "compute_local_reward"}
    cx.same(W + "run_epoch", "evolution.epoch", "retv", "attrs:iteration", lambda p: p.calls("all_reduce", "apply_global_reward", label="shared rewards"), init=False, opaque=pool)
