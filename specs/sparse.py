"""P16: sparse features, densification, data transforms"""
from typing import Dict

import numpy as np
import pandas as pd
import torch
import torch.nn.functional as F

import reagent.types as rlt
from reagent.preprocessing import normalization
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.preprocessing.sparse_preprocessor import SparsePreprocessor, make_sparse_preprocessor
from reagent.preprocessing.transforms import DenseNormalization, FixedLengthSequences, SlateView
from reagent.preprocessing.sparse_to_dense import PythonSparseToDenseProcessor


def map_ids(raw_values, id2index):
    return torch.tensor([id2index[x.item()] for x in raw_values], dtype=torch.long)


def map_scored_ids(raw_keys, raw_values, id2index):
    return torch.tensor([id2index[x.item()] for x in raw_keys], dtype=torch.long), raw_values


def make(feature_config, device):
    mapping = {}
    for fid in feature_config.id2config:
        mapping[fid] = feature_config.id_mapping_config[feature_config.id2config[fid].id_mapping_name].id2index
    return torch.jit.script(SparsePreprocessor(feature_config.id2name, mapping, device))


def preprocessor_init(self, ctor):
    self.id2name = torch.jit.Attribute(ctor.id2name, Dict[int, str])
    self.id2mapping = torch.jit.Attribute(ctor.id2mapping, Dict[int, Dict[int, int]])
    self.device = ctor.device


def id_list(self, ctor, id_list):
    out = {}
    for fid, (offsets, ids) in id_list.items():
        if fid in self.id2name:
            table = self.id2mapping[fid]
            out[self.id2name[fid]] = (offsets, torch.tensor([table[x.item()] for x in ids], dtype=torch.long))
    return out


def id_score_list(self, ctor, id_score_list):
    out = {}
    for fid, (offsets, ids, scores) in id_score_list.items():
        if fid in self.id2name:
            table = self.id2mapping[fid]
            out[self.id2name[fid]] = (offsets, torch.tensor([table[x.item()] for x in ids], dtype=torch.long), scores)
    return out


def dense_init(self, ctor):
    self.sorted_features = ctor.sorted_features
    self.set_missing_value_to_zero = ctor.set_missing_value_to_zero


def string_init(self, ctor):
    self.sorted_features = ctor.sorted_features
    self.set_missing_value_to_zero = ctor.set_missing_value_to_zero
    self._sparse_to_dense = PythonSparseToDenseProcessor(ctor.sorted_features, ctor.set_missing_value_to_zero)


def string_keys(self, ctor, sparse_data):
    return self._sparse_to_dense([{int(k): v for k, v in row.items()} for row in sparse_data])


def call_process(self, ctor, sparse_data):
    return self.process(sparse_data)


def dense(self, ctor, sparse_data):
    zero = self.set_missing_value_to_zero
    gap = 0.0 if zero else normalization.MISSING_VALUE
    frame = pd.DataFrame(sparse_data).fillna(gap)
    for col in self.sorted_features:
        if col not in frame.columns:
            frame[col] = gap
    values = torch.from_numpy(frame[self.sorted_features].to_numpy()).float()
    return values, (torch.ones_like(values, dtype=torch.bool) if zero else values != gap)


# ---- configuration ----
def id2index(self):
    return {id: i for i, id in enumerate(self.ids)} if not self._id2index else self._id2index


def table_size(self):
    return len(self.ids)


def config_maps(self):
    every = self.id_list_feature_configs + self.id_score_list_feature_configs
    if self.id_list_feature_configs or self.id_score_list_feature_configs:
        ids = [c.feature_id for c in every]
        names = [c.name for c in every]
        assert len(ids) == len(set(ids))
        assert len(names) == len(set(names))
    self._id2name = {c.feature_id: c.name for c in every}
    self._name2id = {c.name: c.feature_id for c in every}
    self._id2config = {c.feature_id: c for c in every}
    self._name2config = {c.name: c for c in every}


def only_dense(self):
    return not (self.id_list_feature_configs or self.id_score_list_feature_configs)


def get_id2name(self):
    return self._id2name


def get_name2id(self):
    return self._name2id


def get_id2config(self):
    return self._id2config


def get_name2config(self):
    return self._name2config


# ---- transforms ----
def compose(self, ctor, data):
    for t in self.transforms:
        data = t(data)
    return data


def value_presence(self, ctor, data):
    for k in list(data.keys()):
        p = f"{k}_presence"
        if p in data:
            data[k] = (data[k], data[p])
            del data[p]
    return data


def apply_fn(self, ctor, data):
    for k in self.keys:
        data[k] = self.fn(data[k])
    return data


def normalise(self, ctor, data):
    if self._preprocessor is None:
        self._preprocessor = Preprocessor(self.normalization_data.dense_normalization_parameters, device=self.device)
    for k in self.keys:
        value, presence = data[k]
        data[k] = self._preprocessor(value, presence)
    return data


def map_id_lists(self, ctor, data):
    for k in self.id_list_keys + self.id_score_list_keys:
        if not self.feature_config.id2name or k not in data:
            data[k] = None
        elif k in self.id_list_keys:
            data[k] = self.sparse_preprocessor.preprocess_id_list(data[k])
        else:
            data[k] = self.sparse_preprocessor.preprocess_id_score_list(data[k])
    return data


def map_id_lists_init(self, ctor):
    self.id_list_keys = ctor.id_list_keys
    self.id_score_list_keys = ctor.id_score_list_keys
    self.feature_config = ctor.feature_config
    self.sparse_preprocessor = make_sparse_preprocessor(feature_config=ctor.feature_config, device=ctor.device)


def one_hot(self, ctor, data):
    n = self.num_actions
    for k in self.keys:
        data[k] = F.one_hot(data[k], n + 1).index_select(-1, torch.arange(n))
    return data


def column(self, ctor, data):
    for k in self.keys:
        raw = data[k]
        if isinstance(raw, tuple):
            data[k] = raw[0].reshape(-1, 1)
        elif isinstance(raw, list):
            data[k] = np.array(raw).reshape(-1, 1)
        elif isinstance(raw, torch.Tensor):
            data[k] = raw.reshape(-1, 1)
        else:
            raise NotImplementedError
    return data


def masked(self, ctor, data):
    for k in self.keys:
        value, presence = data[k]
        data[k] = value * presence.float()
    return data


def stack(self, ctor, data):
    for k in self.keys:
        value = data[k]
        if isinstance(value, torch.Tensor):
            if value.ndim != 2 or value.shape[1] != self.size:
                raise ValueError
            data[k] = value.to(self.dtype)
        else:
            data[k] = torch.cat([v for v, _ in value], dim=0).view(-1, self.size).to(dtype=self.dtype)
    return data


def sequences(self, ctor, data):
    for key, to_key in zip(self.keys, self.to_keys):
        offsets, value = data[key][self.sequence_id]
        n = self.expected_length
        if n is None:
            n = (offsets[1] - offsets[0]).item() if len(offsets) > 1 else value[0].shape[0]
            self.expected_length = n
        assert all(torch.arange(0, offsets.shape[0] * n, n) == offsets)
        data[to_key] = value
    return data


def sequences_init(self, ctor):
    self.keys = ctor.keys
    self.sequence_id = ctor.sequence_id
    self.to_keys = ctor.to_keys or ctor.keys
    self.expected_length = ctor.expected_length


def slate_view(self, ctor, data):
    for k in self.keys:
        value = data[k]
        data[k] = value.view(-1, self.slate_size, value.shape[1])
    return data


def sequence_norm(self, ctor, data):
    data = self.fixed_length_sequences(data)
    data = self.dense_normalization(data)
    self.slate_view.slate_size = self.fixed_length_sequences.expected_length
    return self.slate_view(data)


def keys_init(self, ctor):
    self.keys = ctor.keys


def lambda_init(self, ctor):
    self.keys = ctor.keys
    self.fn = ctor.fn


def normalise_init(self, ctor):
    self.keys = ctor.keys
    self.normalization_data = ctor.normalization_data
    self.device = ctor.device or torch.device("cpu")
    self._preprocessor = None


def one_hot_init(self, ctor):
    self.keys = ctor.keys
    self.num_actions = ctor.num_actions


def stack_init(self, ctor):
    self.keys = ctor.keys
    self.size = ctor.size
    self.dtype = ctor.dtype


def slate_view_init(self, ctor):
    self.keys = ctor.keys
    self.slate_size = ctor.slate_size


def sequence_norm_init(self, ctor):
    to_keys = [f"{k}:{ctor.sequence_id}" for k in ctor.keys]
    self.fixed_length_sequences = FixedLengthSequences(ctor.keys, ctor.sequence_id, to_keys=to_keys, expected_length=ctor.expected_length)
    self.dense_normalization = DenseNormalization(to_keys, ctor.normalization_data, device=ctor.device)
    self.slate_view = SlateView(to_keys, slate_size=-1)
