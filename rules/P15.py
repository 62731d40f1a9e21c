"""Normalisation parameters: identification, ordering, serialisation."""
I = "reagent.preprocessing.identify_types."
N = "reagent.preprocessing.normalization."


def run(cx):
    cx.same(I + "_is_probability", "normalization.is_probability", "ret")
    cx.same(I + "_is_binary", "normalization.is_binary", "ret")
    cx.same(I + "_is_enum", "normalization.is_enum", "ret")
    cx.same(I + "identify_type", "normalization.identify_type", "ret")
    cx.same(N + "no_op_feature", "normalization.no_op", "ret")
    cx.same(N + "identify_parameter", "normalization.identify_parameter", "ret", "raises")
    cx.same(N + "get_num_output_features", "normalization.num_outputs", "ret")
    cx.same(N + "get_feature_start_indices", "normalization.starts", "ret")
    cx.same(N + "sort_features_by_normalization", "normalization.order", "ret")
    cx.same(N + "deserialize", "normalization.deserialize", "ret")
    cx.same(N + "serialize_one", "normalization.serialize_one", "ret")
    cx.same(N + "serialize", "normalization.serialize", "ret")
    cx.same(N + "get_feature_norm_metadata", "normalization.metadata", "ret", opaque={"identify_parameter"})
    cx.same(N + "get_feature_norm_metadata", "normalization.metadata_rejects", "raises", opaque={"identify_parameter"})
    cx.same(N + "construct_action_scale_tensor", "normalization.action_scale", "ret")
    cx.same(N + "get_feature_config", "normalization.feature_config", "ret")
