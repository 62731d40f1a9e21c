"""Dense feature normalisation."""
P = "reagent.preprocessing.preprocessor.Preprocessor."
PAIRS = {"DO_NOT_PREPROCESS": ("no_params", "identity"), "DISCRETE_ACTION": ("no_params", "identity"),
         "BINARY": ("no_params", "binary"), "PROBABILITY": ("no_params", "probability"), "CLIP_LOG": ("no_params", "clip_log"),
         "CONTINUOUS": ("continuous_params", "continuous"), "BOXCOX": ("boxcox_params", "boxcox"),
         "QUANTILE": ("quantile_params", "quantile"), "ENUM": ("enum_params", "enum"),
         "CONTINUOUS_ACTION": ("action_params", "action")}
LOW = {"_create_parameter", "_fetch_parameter", "_preprocess_feature_single_column", "_preprocess_feature_multi_column",
       "_check_preprocessing_output", "_get_type_boundaries", "_sort_features_by_normalization"}


def run(cx):
    kw = dict(opaque=LOW)
    for kind, (make, use) in PAIRS.items():
        cx.same(P + "_create_parameters_" + kind, "preproc." + make, "calls:_create_parameter", **kw)
        cx.same(P + "_preprocess_" + kind, "preproc." + use, "ret", **kw)
    cx.same(P + "forward", "preproc.forward", "ret", init=False, **kw)
    cx.same(P + "_preprocess_feature_single_column", "preproc.single", "ret", opaque=set())
    cx.same(P + "_preprocess_feature_multi_column", "preproc.multi", "ret", opaque=set())
    cx.same(P + "_sort_features_by_normalization", "preproc.sort_features", "ret")
    cx.same(P + "_get_type_boundaries", "preproc.boundaries", "ret")
    cx.same(P + "_create_parameter", "preproc.create", "ret", lambda p: p.calls(kinds=("store",), label="attribute stored"))
    cx.same(P + "_fetch_parameter", "preproc.fetch", "ret")
    cx.same(P + "_check_preprocessing_output", "preproc.check", "raises=")
    cx.same(P + "__init__", "preproc.init", "written", "calls:" + ",".join("_create_parameters_" + k for k in PAIRS),
            opaque=LOW | {"_create_parameters_" + k for k in PAIRS})
