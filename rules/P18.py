"""Logged columns become the fields of training batches."""
B = "reagent.preprocessing.batch_preprocessor."
T = "reagent.types."


def run(cx):
    cx.same(B + "batch_to_device", "batches.moved", "ret")
    for cls, init, attrs, fwd in (("DiscreteDqnBatchPreprocessor", "dqn_init", "num_actions,state_preprocessor,device", "dqn"),
                                  ("ParametricDqnBatchPreprocessor", "action_init", "state_preprocessor,action_preprocessor,device", "parametric"),
                                  ("PolicyNetworkBatchPreprocessor", "action_init", "state_preprocessor,action_preprocessor,device", "policy")):
        cx.same(B + cls + ".__init__", "batches." + init, "attrs:" + attrs)
        cx.same(B + cls + ".forward", "batches." + fwd, "ret", init=False)
    records(cx)


def records(cx):
    cx.same(T + "BaseInput.from_dict", "batches.base_from_dict", "ret")
    cx.same(T + "BaseInput.as_dict_shallow", "batches.shallow", "ret")
    cx.same(T + "BaseInput.batch_size", "batches.rows", "ret")
    cx.same(T + "BaseInput.__len__", "batches.rows", "ret")
    cx.same(T + "MemoryNetworkInput.__len__", "batches.memory_rows", "ret", "raises=")
    cx.same(T + "DiscreteDqnInput.from_dict", "batches.dqn_from_dict", "ret")
    cx.same(T + "PolicyNetworkInput.from_dict", "batches.policy_from_dict", "ret")
    cx.same(T + "SlateQInput.from_dict", "batches.slate_q_from_dict", "ret", opaque={T + "ExtraData.from_dict"})
    cx.same(T + "ParametricDqnInput.from_dict", "batches.parametric_from_dict", "ret")
    cx.same(T + "ExtraData.from_dict", "batches.extra_from_dict", "ret")
    cx.same(T + "DocList.__post_init__", "batches.docs_defaults", "attrs:mask,value,float_features")
    cx.same(T + "DocList.select_slate", "batches.select_slate", "ret")
    cx.same(T + "DocList.as_feature_data", "batches.docs_as_features", "ret")
    cx.same(T + "FeatureData.__post_init__", "batches.two_dimensional", "raises=")
    cx.same(T + "FeatureData.has_float_features_only", "batches.float_only", "ret")
    cx.same(T + "FeatureData.get_tiled_batch", "batches.tiled", "ret")
    cx.same(T + "FeatureData.concat_user_doc", "batches.user_doc", "ret")
    cx.same(T + "_embed_states", "batches.embed_states", "ret")
    cx.same(T + "TensorFeatureData.forward", "batches.to_features", "ret")
    cx.same(T + "TensorDataClass.cuda", "batches.on_gpu", "ret")
