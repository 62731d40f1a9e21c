"""Sparse features keep ids, offsets and scores aligned; densification and transforms place every value in its column."""
S = "reagent.preprocessing.sparse_preprocessor."
D = "reagent.preprocessing.sparse_to_dense."
T = "reagent.types."
X = "reagent.preprocessing.transforms."


def run(cx):
    cx.same(S + "map_id_list", "sparse.map_ids", "ret")
    cx.same(S + "map_id_score_list", "sparse.map_scored_ids", "ret")
    cx.same(S + "make_sparse_preprocessor", "sparse.make", "ret")
    cx.same(S + "SparsePreprocessor.__init__", "sparse.preprocessor_init", "attrs:id2name,id2mapping,device")
    cx.same(S + "SparsePreprocessor.preprocess_id_list", "sparse.id_list", "ret", init=False)
    cx.same(S + "SparsePreprocessor.preprocess_id_score_list", "sparse.id_score_list", "ret", init=False)
    cx.same(D + "SparseToDenseProcessor.__init__", "sparse.dense_init", "attrs:sorted_features,set_missing_value_to_zero")
    cx.same(D + "SparseToDenseProcessor.__call__", "sparse.call_process", "ret", init=False)
    cx.same(D + "StringKeySparseToDenseProcessor.__init__", "sparse.string_init", "attrs:sorted_features,set_missing_value_to_zero,_sparse_to_dense")
    cx.same(D + "StringKeySparseToDenseProcessor.process", "sparse.string_keys", "ret", init=False)
    cx.same(D + "PythonSparseToDenseProcessor.__init__", "sparse.dense_init", "attrs:sorted_features,set_missing_value_to_zero")
    cx.same(D + "PythonSparseToDenseProcessor.process", "sparse.dense", "ret", init=False)

    cx.same(T + "IdMapping.id2index", "sparse.id2index", "ret")
    cx.same(T + "IdMapping.table_size", "sparse.table_size", "ret")
    cx.same(T + "ModelFeatureConfig.__post_init_post_parse__", "sparse.config_maps", "attrs:_id2name,_name2id,_id2config,_name2config")
    for n in ("id2name", "name2id", "id2config", "name2config"):
        cx.same(T + "ModelFeatureConfig." + n, "sparse.get_" + n, "ret")
    cx.same(T + "ModelFeatureConfig.only_dense", "sparse.only_dense", "ret")

    for c, s in (("Compose", "compose"), ("ValuePresence", "value_presence"), ("Lambda", "apply_fn"), ("DenseNormalization", "normalise"),
                 ("MapIDListFeatures", "map_id_lists"), ("OneHotActions", "one_hot"), ("ColumnVector", "column"), ("MaskByPresence", "masked"),
                 ("StackDenseFixedSizeArray", "stack"), ("FixedLengthSequences", "sequences"), ("SlateView", "slate_view"),
                 ("FixedLengthSequenceDenseNormalization", "sequence_norm")):
        cx.same(X + c + ".__call__", "sparse." + s, "ret", "raises=", init=False)
    cx.same(X + "MapIDListFeatures.__init__", "sparse.map_id_lists_init", "attrs:id_list_keys,id_score_list_keys,feature_config,sparse_preprocessor")
    cx.same(X + "FixedLengthSequences.__init__", "sparse.sequences_init", "attrs:keys,sequence_id,to_keys,expected_length")
    for c, f, names in (("Lambda", "lambda", "keys,fn"), ("DenseNormalization", "normalise", "keys,normalization_data,device,_preprocessor"),
                        ("OneHotActions", "one_hot", "keys,num_actions"), ("ColumnVector", "keys", "keys"), ("MaskByPresence", "keys", "keys"),
                        ("StackDenseFixedSizeArray", "stack", "keys,size,dtype"), ("SlateView", "slate_view", "keys,slate_size"),
                        ("FixedLengthSequenceDenseNormalization", "sequence_norm", "fixed_length_sequences,dense_normalization,slate_view")):
        cx.same(X + c + ".__init__", "sparse." + f + "_init", "attrs:" + names)
    cx.same(X + "FixedLengthSequences.__call__", "sparse.sequences", "attrs:expected_length", init=False)
    cx.same(X + "DenseNormalization.__call__", "sparse.normalise", "attrs:_preprocessor", init=False)
    cx.same(X + "FixedLengthSequenceDenseNormalization.__call__", "sparse.sequence_norm", lambda p: p.calls(kinds=("store",)), init=False)
