"""Tabular and linear trainers of the off-policy library."""
T = "reagent.ope.trainers.rl_tabular_trainers."
L = "reagent.ope.trainers.linear_trainers."
HELP = {"_estimate_value", "_state_value", "state_value", "_evaluate", "_update_state_value", "_update_policy", "generate_log", "update", "reset",
        "_sample", "_score", "step", "PolicyLogGenerator", "DPValueFunction"}


def run(cx):
    def same(name, spec, *obs, **kw):
        kw.setdefault("opaque", HELP - {name.split(".")[-1]})
        kw.setdefault("inline_new", {"RunningAverage"})
        cx.same(name, "tabular." + spec, *(obs or ("ret",)), **kw)

    table = lambda p: p.calls(kinds=("setitem",), label="table updates")
    same(T + "TabularPolicy.__init__", "policy_init", "attrs:_exploitation_prob,_exploration_prob,_uniform_probs,_state_space")
    same(T + "TabularPolicy.update", "policy_update", "ret", table, init=False)
    same(T + "TabularPolicy.action_dist", "policy_dist", init=False)
    same(T + "TabularValueFunction._state_value", "known_value", init=False)
    same(T + "TabularValueFunction.state_action_value", "action_value", init=False)
    same(T + "EstimatedStateValueFunction._estimate_value", "sampled_values", table, init=False)
    same(T + "EstimatedStateValueFunction.state_value", "sampled_value", init=False)
    same(T + "DPValueFunction.state_value", "dp_value", "ret", "calls:_evaluate", init=False)
    same(T + "DPValueFunction.reset", "dp_reset", "attrs:_evaluated,_state_values", init=False)
    same(T + "DPValueFunction._evaluate", "dp_evaluate", "attrs:_evaluated", table, init=False)
    same(T + "DPTrainer.train", "dp_train", "ret", "calls:update,reset", init=False)
    same(T + "MonteCarloValueFunction._update_state_value", "mc_update", table, init=False)
    same(T + "MonteCarloValueFunction._state_value", "mc_value", "ret", "calls:_update_state_value,generate_log", init=False)
    same(T + "MonteCarloValueFunction.reset", "mc_reset", "attrs:_state_values,_state_counts", init=False)
    same(T + "MonteCarloTrainer.train", "mc_train", "calls:_update_state_value,generate_log,_update_policy", init=False)
    same(T + "MonteCarloTrainer._update_state_value", "mc_table_update", table, init=False)
    same(T + "MonteCarloTrainer._update_policy", "mc_policy", "ret", "calls:update", init=False)
    same("reagent.ope.estimators.types.Trainer._sample", "sample")
    same(L + "LinearTrainer.predict", "predict", "ret", "raises", init=False)
    same(L + "LinearTrainer._score", "scored", init=False)
    same(L + "LinearTrainer.score", "score", init=False)
    for cls, spec in (("LassoTrainer", "lasso"), ("DecisionTreeTrainer", "tree"), ("DecisionTreeClassifierTrainer", "tree_classifier"),
                      ("LogisticRegressionTrainer", "logistic"), ("SGDClassifierTrainer", "sgd")):
        same(L + cls + ".train", spec, "attrs:_model", "calls:fit", init=False)
    same(L + "LinearNet.__init__", "net_init", "attrs:model")
    same(L + "LinearNet.forward", "net_forward")
    same(L + "NNTrainer.train", "net_train", "ret", "attrs:_model,_loss_fn", "calls:step,backward,zero_grad", init=False)
    same(L + "NNTrainer.predict", "net_predict", "ret", "raises", "calls:eval", init=False)
    V = "attrs:_policy,_model,_gamma,_state_values"
    same(T + "TabularValueFunction.__init__", "table_built", V)
    same(T + "EstimatedStateValueFunction.__init__", "sampled_built", "attrs:_policy,_env,_gamma,_num_episodes,_state_values", "calls:_estimate_value")
    same(T + "EstimatedStateValueFunction.state_action_value", "no_action_value", init=False)
    same(T + "EstimatedStateValueFunction.reset", "forget", "attrs:_state_values", init=False)
    same(T + "DPValueFunction.__init__", "dp_built", V + ",_env,_threshold,_evaluated")
    same(T + "DPTrainer.__init__", "trainer_built", "attrs:_env,_policy")
    same(T + "MonteCarloValueFunction.__init__", "mc_built", V + ",_env,_first_visit,_count_threshold,_max_iteration,_log_generator,_state_counts")
    same(T + "MonteCarloValueFunction.state_value", "mc_state_value", init=False)
    same(T + "MonteCarloTrainer.__init__", "mc_trainer_built", "attrs:_env,_policy,_log_generator")
    same(L + "LinearTrainer.__init__", "linear_built", "attrs:_model,_is_classifier")
    same(L + "DecisionTreeClassifierTrainer.__init__", "classifier_built", "attrs:_model,_is_classifier")
    same(L + "LogisticRegressionTrainer.__init__", "logistic_built", "attrs:_model,_is_classifier,_solver")
    same(L + "SGDClassifierTrainer.__init__", "sgd_built", "attrs:_model,_is_classifier,_loss,_max_iter")
    same(L + "NNTrainer.__init__", "net_built", "attrs:_model,_device,_loss_fn")
    same(L + "NNTrainer.score", "net_score", "ret", "raises", init=False)
