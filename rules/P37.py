"""Forward passes and construction of the value networks."""
M = "reagent.models."


def run(cx):
    D, FC = M + "dqn.FullyConnectedDQN.", M + "fully_connected_network.FullyConnectedNetwork."
    U, PU = M + "dueling_q_network.DuelingQNetwork.", M + "dueling_q_network.ParametricDuelingQNetwork."
    net = {M + "fully_connected_network.FullyConnectedNetwork"}
    cx.same(D + "__init__", "models.dqn_init", "attrs:fc,action_dim,num_atoms", opaque=net)
    cx.same(D + "forward", "models.dqn", "ret", init=False)
    cx.same(U + "__init__", "models.stores_networks", "attrs:shared_network,advantage_network,value_network", opaque={"_check_connection"})
    cx.same(U + "forward", "models.dueling", "ret", init=False)
    cx.same(U + "make_fully_connected", "models.dueling_build", "ret")
    cx.same(PU + "__init__", "models.stores_networks", "attrs:shared_network,advantage_network,value_network", opaque={"_check_connection"})
    cx.same(PU + "forward", "models.parametric_dueling", "ret", init=False)
    cx.same(PU + "make_fully_connected", "models.parametric_dueling_build", "ret")
    cx.same(M + "dueling_q_network._check_connection", "models.check_connection", "calls:eval,train,_get_values", opaque={"_get_values"})
    C = M + "categorical_dqn.CategoricalDQN."
    cx.same(C + "forward", "models.categorical", "ret")
    cx.same(C + "log_dist", "models.categorical_log", "ret")
    cx.same(M + "bcq.BatchConstrainedDQN.forward", "models.bcq", "ret")
    K = M + "critic.FullyConnectedCritic."
    cx.same(K + "forward", "models.critic", "ret", init=False)
    cx.same(K + "__init__", "models.critic_init", "attrs:fc,state_dim,action_dim")
    cx.same(FC + "__init__", "models.fc_init", "attrs:dnn")
    cx.same(FC + "forward", "models.fc", "ret", init=False)
    cx.same(M + "fully_connected_network.gaussian_fill_w_gain", "models.fill", "calls:normal_")
    cx.same(M + "base.ModelBase.get_target_network", "models.target_copy", "ret")
    E = M + "embedding_bag_concat.EmbeddingBagConcat."
    cx.same(E + "__init__", "models.embed_init", "attrs:embedding_bags,feat2table,_output_dim")
    cx.same(E + "forward", "models.embed", "ret", init=False)
    cx.same(E + "output_dim", "models.embed_out", "ret", init=False)
    V = M + "convolutional_network.ConvolutionalNetwork."
    cx.same(V + "conv_forward", "models.conv_forward", "ret", init=False)
    cx.same(V + "forward", "models.conv", "ret", init=False, opaque={"conv_forward"})
    cx.same(M + "mlp_scorer.MLPScorer.forward", "models.scorer", "ret", init=False, opaque={"concat_user_doc"})
    cx.same(V + "__init__", "models.conv_init", "attrs:conv_dims,conv_layers,pool_layers,fc_input_dim,feed_forward", opaque=net | {"conv_forward"})
