"""Actors: the returned action and its log-density."""
A = "reagent.models.actor."


def run(cx):
    cx.same(A + "StochasticActor.forward", "models.stochastic_actor", "ret")
    F = A + "FullyConnectedActor."
    cx.same(F + "__init__", "models.det_init", "attrs:fc,action_dim,exploration_variance")
    cx.same(F + "forward", "models.det", "ret")
    G = A + "GaussianFullyConnectedActor."
    cx.same(G + "__init__", "models.gauss_init", "attrs:fc,action_dim,use_layer_norm,use_l2_normalization,loc_layer_norm,scale_layer_norm")
    cx.same(G + "forward", "models.gauss", "ret")
    cx.same(G + "get_log_prob", "models.density", "ret")
    D = A + "DirichletFullyConnectedActor."
    cx.same(D + "__init__", "models.dir_init", "attrs:fc")
    cx.same(D + "forward", "models.dirichlet", "ret", init=False)
    cx.same(D + "get_log_prob", "models.dir_density", "ret", init=False)
