"""Training workflow, model managers, data modules, validators and publishers."""
import ast

from sa.driver import compare
from sa.index import Class


W = "reagent.workflow."
M = W + "model_managers."


def loaded(p):
    r = p.impl.ret
    if r.op == "tuple":
        p._add(compare("workflow function", r.args[0], p.spec.ret, p.dc, p.fn.loc(), False))


def run(cx):
    n = dict(init=False, opaque={"reagent.core.tagged_union.TaggedUnion.value"})

    def both(path, spec, *obs, base=W, **kw):
        kw = {**n, **kw, "opaque": set(kw.get("opaque", ())) | n["opaque"]}
        cx.same(base + path, "workflow." + spec, *(obs or ("ret",)), **kw)

    def mm(path, spec, *obs, **kw):
        both(path, spec, *obs, base=M, **kw)

    # command line
    both("cli._load_func_and_config_class", "cli_load", loaded)
    both("cli.select_relevant_params", "cli_select", "ret")
    # splitting
    both("training.get_sample_range", "sample_ranges", "ret", "raises=")
    both("data.manual_data_module.get_sample_range", "module_sample_ranges", "ret", "raises=")
    both("training.identify_and_train_network", "identify_and_train", opaque={"query_and_train"})
    both("training.query_and_train", "query_train", "ret", "raises=", lambda p: p.calls("query_data", "prepare_data", "train_workflow", label="the data queried and the training run"),
         opaque={"run_validator", "run_publisher", "get_sample_range", "get_workflow_id", "get_new_named_entity_ids"})
    both("training.run_validator", "validated", "ret", "raises=")
    both("training.run_publisher", "published", "ret", "raises=")
    both("validators.model_validator.ModelValidator.validate", "validate", base="reagent.")
    both("publishers.model_publisher.ModelPublisher.publish", "publish", base="reagent.")
    both("validators.no_validation.NoValidation.do_validate", "accept", base="reagent.")
    both("publishers.no_publishing.NoPublishing.do_publish", "unpublished", base="reagent.")

    # the model manager
    g = "model_manager.ModelManager."
    mm(g + "__init__", "manager_init", "attrs:_normalization_data_map,_reward_options,_trainer,_use_gpu,_lightning_trainer,_lightning_checkpoint_path", init=True)
    mm(g + "use_gpu", "use_gpu")
    mm(g + "trainer", "trainer")
    mm(g + "reward_options", "reward_options")
    mm(g + "__getattr__", "normalization_of", "ret", "raises")
    mm(g + "initialize_trainer", "initialize_trainer", "ret", "attrs:_use_gpu,_trainer,_normalization_data_map,_lightning_checkpoint_path,_reward_options",
       lambda p: p.calls("build_trainer", "load_state_dict", label="construction and warm start"))
    mm(g + "destroy_trainer", "destroy", "attrs:_trainer")
    mm(g + "get_data_module", "no_module")
    mm(g + "build_serving_modules", "serving_modules")
    mm(g + "serving_module_names", "default_names")
    mm(g + "save_trainer", "save_trainer", lambda p: p.calls("save", "save_checkpoint", "open", "write", "read", "state_dict", kinds=("call", "enter", "exit", "setitem"), label="what is written"),
       lambda p: p.calls(kinds=("setitem",), label="the trainer is marked as cleanly stopped"))
    mm(g + "train_workflow", "train_workflow", "ret", lambda p: p.calls("setup", "initialize_trainer", "train", "save", "build_serving_modules", label="order of the run"),
       opaque={"initialize_trainer", "get_data_module", "build_serving_modules"})

    # data modules
    d = "data.manual_data_module.ManualDataModule."
    both(d + "__init__", "module_init", "attrs:input_table_spec,reward_options,reader_options,_model_manager,setup_data,saved_setup_data,_setup_done", init=True)
    both(d + "prepare_data", "prepare_data", "ret", "attrs:setup_data", opaque={"get_sample_range"})
    both(d + "setup", "setup", "attrs:_normalization_data_map,_train_dataset,_eval_dataset,_setup_done")
    both(d + "get_normalization_data_map", "norms_of_module")
    both(d + "get_dataloader", "dataloader", opaque={"_closing_iter", "collate_and_preprocess"})
    both(d + "train_dataloader", "manual_train_loader", opaque={"get_dataloader"})
    both(d + "test_dataloader", "manual_test_loader", opaque={"get_dataloader"})
    both(d + "__getattr__", "normalization_of", "ret", "raises")
    both("data.manual_data_module._closing_iter", "closing_iter", "yields", lambda p: p.calls("__exit__", label="closing"))
    both("data.manual_data_module.collate_and_preprocess", "collated")
    both("utils.collate_and_preprocess", "collated")
    both("utils.get_petastorm_dataloader", "petastorm_loader", opaque={"collate_and_preprocess"})
    u = "utils.PetastormLightningDataModule."
    both(u + "_closing_iter", "closing_method", "yields", lambda p: p.calls("__exit__", label="closing"))
    both(u + "train_dataloader", "peta_train", opaque={"get_petastorm_dataloader", "_closing_iter"})
    both(u + "test_dataloader", "peta_test", opaque={"get_petastorm_dataloader", "_closing_iter"})
    both("utils.get_rank", "rank")
    both("utils.train_eval_lightning", "fit", "ret", lambda p: p.calls("fit", "test", label="training, then evaluation"))

    props = {"state_feature_config", "metrics_to_score", "state_normalization_data", "action_normalization_data", "item_normalization_data", "use_gpu", "reward_options",
             "asdict", "get_num_output_features", "build_q_network", "build_serving_module", "build_actor", "build_value_network", "build_actor_module", "action_feature_config",
             "create_predictor_policy_from_model", "get_target_network", "cuda"}
    w = dict(opaque=props)
    # managers of discrete-action algorithms
    b = "discrete_dqn_base.DiscreteDQNBase."
    mm(b + "create_policy", "dqn_policy", **w)
    mm(b + "state_feature_config", "state_features")
    mm(b + "metrics_to_score", "metrics", "ret", "attrs:_metrics_to_score", opaque={"get_metrics_to_score"})
    mm(b + "required_normalization_keys", "state_only")
    mm(b + "multi_steps", "multi_steps")
    mm(b + "get_data_module", "dqn_module")
    reporters = {"DiscreteDQNBase": "dqn_reporter"}
    mm(b + "get_reporter", "dqn_reporter")
    lightning = dict(opaque={"train_eval_lightning", "get_rank", "get_reporter", "build_batch_preprocessor", "use_gpu", "trainer"})
    mm(b + "train", "dqn_train", "ret", "attrs:_lightning_trainer", lambda p: p.calls("set_reporter", "train_eval_lightning", "generate_training_report", label="order of reporting and training"), **lightning)
    dm = "discrete_dqn_base.DiscreteDqnDataModule."
    known = dict(opaque={"query_data", "identify_normalization_parameters"})
    mm(dm + "should_generate_eval_dataset", "dqn_evaluates")
    mm(dm + "required_normalization_keys", "state_only")
    mm(dm + "run_feature_identification", "dqn_features", **known)
    mm(dm + "query_data", "dqn_query", **known)
    mm(dm + "build_batch_preprocessor", "dqn_preprocessor")
    mm("discrete.discrete_dqn.DiscreteDQN.build_trainer", "dqn_trainer", "ret", "attrs:_q_network", **w)
    mm("discrete.discrete_dqn.DiscreteDQN.get_reporter", "dqn_reporter")
    mm("discrete.discrete_qrdqn.DiscreteQRDQN.build_trainer", "qrdqn_trainer", "ret", "attrs:_q_network", **w)
    mm("discrete.discrete_c51dqn.DiscreteC51DQN.build_trainer", "c51_trainer", "ret", "attrs:_q_network", **w)
    for c in ("discrete_dqn.DiscreteDQN", "discrete_qrdqn.DiscreteQRDQN", "discrete_c51dqn.DiscreteC51DQN"):
        mm("discrete." + c + ".build_serving_module", "dqn_serving", **w)
    c = "discrete.discrete_crr."
    mm(c + "DiscreteCRR.build_trainer", "crr_trainer", "ret", "attrs:_actor_network,_q1_network", **w)
    mm(c + "DiscreteCRR.create_policy", "crr_policy", **w)
    mm(c + "DiscreteCRR.get_reporter", "crr_reporter")
    mm(c + "DiscreteCRR.serving_module_names", "crr_names")
    mm(c + "DiscreteCRR.build_serving_modules", "crr_modules", **w)
    mm(c + "DiscreteCRR.build_actor_module", "crr_actor_module", **{"opaque": props - {"build_actor_module"}})
    mm(c + "ActorDQN.forward", "actor_dqn")

    # managers of continuous-control algorithms
    a = "actor_critic_base."
    mm(a + "ActorPolicyWrapper.act", "actor_act", "retv", lambda p: p.calls("eval", "train", "actor_network", label="the actor acts in evaluation mode"))
    mm(c + "ActorPolicyWrapper.act", "actor_act", "retv", lambda p: p.calls("eval", "train", "actor_network", label="the actor acts in evaluation mode"))
    a += "ActorCriticBase."
    mm(a + "should_generate_eval_dataset", "evaluates")
    mm(a + "create_policy", "ac_policy", **w)
    mm(a + "metrics_to_score", "metrics", "ret", "attrs:_metrics_to_score", opaque={"get_metrics_to_score"})
    cfg = dict(opaque={"get_feature_config"})
    mm(a + "state_feature_config", "state_config", **cfg)
    mm(a + "action_feature_config", "action_config", **cfg)
    mm(a + "get_state_preprocessing_options", "ac_state_options", **w)
    mm(a + "get_action_preprocessing_options", "ac_action_options", **w)
    opts = dict(opaque=props | known["opaque"] | {"get_state_preprocessing_options", "get_action_preprocessing_options"})
    mm(a + "run_feature_identification", "ac_features", **opts)
    mm(a + "required_normalization_keys", "state_action")
    mm(a + "query_data", "ac_query", **known)
    mm(a + "build_batch_preprocessor", "ac_preprocessor", **w)
    mm(a + "get_reporter", "ac_reporter")
    mm(a + "train", "ac_train", "ret", "attrs:_lightning_trainer", lambda p: p.calls("set_reporter", "train_eval_lightning", "generate_training_report", label="order of reporting and training"), **lightning)
    mm("actor_critic.sac.SAC.build_trainer", "sac_trainer", "ret", "attrs:_actor_network,_q1_network", **w)
    mm("actor_critic.td3.TD3.build_trainer", "td3_trainer", "ret", "attrs:_actor_network,_q1_network", **w)
    mm("actor_critic.sac.SAC.build_serving_module", "sac_serving", **w)
    mm("actor_critic.td3.TD3.build_serving_module", "td3_serving", **w)
    mm("actor_critic.sac.SAC.get_reporter", "sac_reporter")
    mm("actor_critic.td3.TD3.get_reporter", "td3_reporter")

    # managers over action features and slates
    q = "parametric_dqn_base.ParametricDQNBase."
    mm(q + "create_policy", "parametric_policy", **w)
    mm(q + "should_generate_eval_dataset", "evaluates")
    mm(q + "state_feature_config", "state_config", **cfg)
    mm(q + "action_feature_config", "action_config", **cfg)
    mm(q + "run_feature_identification", "parametric_features", **opts)
    mm(q + "required_normalization_keys", "state_action")
    mm(q + "metrics_to_score", "metrics", "ret", "attrs:_metrics_to_score", opaque={"get_metrics_to_score"})
    mm("parametric.parametric_dqn.ParametricDQN.build_trainer", "parametric_trainer", "ret", "attrs:_q_network", **w)
    mm("parametric.parametric_dqn.ParametricDQN.build_serving_module", "parametric_serving", **w)
    s = "slate_q_base.SlateQBase."
    mm(s + "create_policy", "slate_policy", **w)
    mm(s + "should_generate_eval_dataset", "evaluates")
    mm(s + "state_feature_config", "state_config", **cfg)
    mm(s + "item_feature_config", "item_config", **cfg)
    mm(s + "run_feature_identification", "slate_features", **{"opaque": opts["opaque"] | {"item_feature_config"}})
    mm(s + "required_normalization_keys", "state_item")
    mm(s + "get_reporter", "slate_reporter")
    mm("ranking.slate_q.SlateQ.build_trainer", "slate_trainer", "ret", "attrs:_q_network", **w)
    mm("ranking.slate_q.SlateQ.build_serving_module", "slate_serving", **w)

    # managers of model-based algorithms
    e = "model_based.cross_entropy_method."
    mm(e + "CEMPolicy.act", "cem_act", "retv")
    mm(e + "CrossEntropyMethod.create_policy", "cem_policy")
    mm(e + "CrossEntropyMethod.build_trainer", "cem_trainer", "ret", "attrs:discrete_action,cem_planner_network",
       lambda p: p.calls("initialize_trainer", "build_trainer", label="world models are initialised first"),
       **{"opaque": props | {"initialize_trainer", M + "model_based.world_model.WorldModel.build_trainer"}})
    mm("model_based.seq2reward_model.Seq2RewardModel.build_trainer", "seq2reward_trainer", "ret", "written", **w)
    mm("model_based.world_model.WorldModel.build_trainer", "world_trainer", **w)
    mm("world_model_base.WorldModelBase.should_generate_eval_dataset", "never")
    mm("world_model_base.WorldModelBase.required_normalization_keys", "state_action")

    # what managers derive from their configuration
    post = ".__post_init_post_parse__"
    for c, spec in ("discrete_dqn.DiscreteDQN", "setup"), ("discrete_crr.DiscreteCRR", "setup"), ("discrete_qrdqn.DiscreteQRDQN", "setup_sized"), ("discrete_c51dqn.DiscreteC51DQN", "setup_sized"):
        mm("discrete." + c + post, "discrete_" + spec, "attrs:rl_parameters,action_names", "raises=")
    for c in ("actor_critic.sac.SAC", "actor_critic.td3.TD3", "parametric.parametric_dqn.ParametricDQN"):
        mm(c + post, "ac_setup", "attrs:rl_parameters,_state_preprocessing_options,_action_preprocessing_options", "raises=")
    mm("ranking.slate_q.SlateQ" + post, "slate_setup", "attrs:_state_preprocessing_options,_item_preprocessing_options,eval_parameters", "raises=")

    # publishing
    f = "publishers.file_system_publisher.FileSystemPublisher."
    both(f + "do_publish", "publish_files", "ret", "raises", lambda p: p.calls("insert", "update", label="what is stored"), base="reagent.")
    both(f + "get_latest_published_model", "latest_file", "ret", "raises=", base="reagent.")
    wiring(cx)


def ctor_params(cls, ix):
    """[(name, annotation, has default)] of the class's constructor"""
    f = ix.find_method(cls, "__init__")
    if f is None:
        return None, None
    a = f.node.args
    ps = a.posonlyargs + a.args
    d = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    out = [(p.arg, p.annotation, v is not None) for p, v in list(zip(ps, d))[1:]]
    out += [(p.arg, p.annotation, v is not None) for p, v in zip(a.kwonlyargs, a.kw_defaults)]
    return f, (out, a.kwarg is not None)


def network_type(ix, module, ann):
    """is the annotated type (possibly Optional[...]) a neural network class? (such parameters never become configuration)"""
    if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split(".")[-1] == "Optional":
        ann = ann.slice
    if ann is None or isinstance(ann, ast.Subscript):
        return False
    if ast.unparse(ann) in ("torch.nn.Module", "nn.Module"):
        return True
    c = ix.resolve_expr_class(module, ann)
    return c is not None and any(b in ("nn.Module", "torch.nn.Module", "pl.LightningModule") for k in ix.mro(c) for b in ix.basenames(k))


def config_class(ix, cls):
    """(trainer class, [field], {field with default}) of a class declared as the configuration of a constructor"""
    for d in cls.node.decorator_list:
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "make_config_class" and d.args and isinstance(d.args[0], ast.Attribute):
            trainer = ix.resolve_expr_class(cls.module, d.args[0].value)
            if trainer is None or d.args[0].attr != "__init__":
                return None
            listed = {}
            for kw in d.keywords:
                try:
                    listed[kw.arg] = ast.literal_eval(kw.value)
                except ValueError:
                    return None
            f, ps = ctor_params(trainer, ix)
            if f is None:
                return None
            names = listed.get("whitelist")
            if not names:
                black = set(listed.get("blacklist") or ())
                names = [p for p, ann, dflt in ps[0] if p not in black and (ann is not None or dflt) and not network_type(ix, f.module, ann)]
            return trainer, names
    return None


def wiring(cx):
    """every trainer built from a configuration object receives each parameter exactly once"""
    ix = cx.ix
    count = 0
    for m in ix.all_modules("reagent/workflow/model_managers"):
        for cls in [x for x in m.syms.values() if isinstance(x, Class)]:
            ann = {}
            for k in reversed(ix.mro(cls)):
                for s in k.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        ann[s.target.id] = (k.module, s.annotation)
            for f in cls.methods.values():
                for call in ast.walk(f.node):
                    if not isinstance(call, ast.Call):
                        continue
                    for kw in call.keywords:
                        v = kw.value
                        if kw.arg is None and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "asdict" \
                                and isinstance(v.func.value, ast.Attribute) and isinstance(v.func.value.value, ast.Name) and v.func.value.attr in ann:
                            count += wired(cx, f, call, *ann[v.func.value.attr])
    cx.coverage["trainer constructions"] = count


def wired(cx, f, call, module, annotation):
    ix = cx.ix
    trainer, config = ix.resolve_expr_class(f.module, call.func), ix.resolve_expr_class(module, annotation)
    made = config and config_class(ix, config)
    where = "%s:%d" % (f.module.relpath, call.lineno)
    if trainer is None or not made:
        return 0
    owner, fields = made
    g, ps = ctor_params(trainer, ix)
    if g is None:
        return 0
    named = [k.arg for k in call.keywords if k.arg] + [p[0] for p in ps[0][:len(call.args)]]
    label = "%s from %s" % (trainer.name, config.name)
    rule = "trainer construction"
    cx.fact(rule, f.qual, label + ": the configuration describes this trainer", owner is trainer, "it describes " + owner.name, loc=where)
    twice = sorted(set(named) & set(fields))
    cx.fact(rule, f.qual, label + ": nothing is given twice", not twice, "given twice: " + ", ".join(twice), loc=where)
    known = {p[0] for p in ps[0]}
    extra = sorted((set(named) | set(fields)) - known) if not ps[1] else []
    cx.fact(rule, f.qual, label + ": nothing unknown is given", not extra, "unknown: " + ", ".join(extra), loc=where)
    lost = sorted(p for p, _, dflt in ps[0] if not dflt and p not in named and p not in fields)
    cx.fact(rule, f.qual, label + ": every required parameter is given", not lost, "missing: " + ", ".join(lost), loc=where)
    quiet = sorted(p for p, ann, dflt in ps[0] if dflt and p not in named and p not in fields and network_type(ix, g.module, ann))
    cx.fact(rule, f.qual, label + ": every network is given", not quiet, "left at its default: " + ", ".join(quiet), loc=where)
    return 1
