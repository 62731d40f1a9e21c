"""Reference definitions: normalisation parameters."""
import json
from dataclasses import asdict

import numpy as np
import torch
import reagent.types as rlt
from reagent.parameters import NormalizationParameters
from reagent.preprocessing.normalization import identify_parameter as ident
from scipy import stats
from scipy.stats.mstats import mquantiles

TYPES = ("BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DISCRETE_ACTION",
         "DO_NOT_PREPROCESS", "CLIP_LOG")


def is_probability(feature_values):
    return np.all(0 <= feature_values) and np.all(feature_values <= 1)


def is_binary(feature_values):
    only01 = np.all(np.logical_or(feature_values == 0, feature_values == 1))
    return only01 or np.min(feature_values) == np.max(feature_values)


def is_enum(feature_values, enum_threshold):
    whole = np.vectorize(lambda v: float(v).is_integer())
    return np.min(feature_values) >= 0 and len(np.unique(feature_values)) <= enum_threshold and np.all(whole(feature_values))


def identify_type(values, enum_threshold=100):
    if is_binary(values):
        return "BINARY"
    if is_probability(values):
        return "PROBABILITY"
    if is_enum(values, enum_threshold):
        return "ENUM"
    return "CONTINUOUS"


def no_op():
    return NormalizationParameters("CONTINUOUS", None, 0, 0, 1, None, None, None, None)


def identify_parameter(
    feature_name, values, max_unique_enum_values=100, quantile_size=20, quantile_k2_threshold=1000.0, skip_box_cox=False,
    skip_quantiles=False, feature_type=None,
):
    kind = identify_type(values, max_unique_enum_values) if feature_type is None else feature_type
    assert kind in ["CONTINUOUS", "PROBABILITY", "BINARY", "ENUM", "CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS"]
    assert len(values) >= 20
    lo, hi = float(np.min(values)), float(np.max(values))
    lam, shift, mean, stddev, possible, quantiles = None, 0.0, 0.0, 1.0, None, None
    if kind == "DO_NOT_PREPROCESS":
        mean = float(np.mean(values))
        values = values - mean
        stddev = max(float(np.std(values, ddof=1)), 1.0)
    if kind == "CONTINUOUS":
        if lo == hi:
            return no_op()
        k2, _ = stats.normaltest(values)
        shift = float(-lo)
        transformed, fitted = stats.boxcox(np.maximum(values + shift, 1e-4))
        k2_t, _ = stats.normaltest(transformed)
        if not skip_box_cox and (fitted < 0.9 or fitted > 1.1):
            if k2 > k2_t * 10 and k2_t <= quantile_k2_threshold:
                stddev = float(np.std(transformed, ddof=1))
                if np.isfinite(stddev) and stddev < 1e8 and not np.isclose(stddev, 0):
                    values = transformed
                    lam = float(fitted)
        if lam is None:
            shift = None
        if lam is not None:
            kind = "BOXCOX"
        elif k2 > quantile_k2_threshold and not skip_quantiles:
            kind = "QUANTILE"
            at = np.arange(quantile_size + 1, dtype=np.float64) / float(quantile_size)
            quantiles = np.unique(mquantiles(values, at, alphap=0.0, betap=1.0)).astype(float).tolist()
    if kind in ("CONTINUOUS", "BOXCOX", "CONTINUOUS_ACTION"):
        mean = float(np.mean(values))
        stddev = max(float(np.std(values - mean, ddof=1)), 1.0)
        if not np.isfinite(stddev):
            return None
    if kind == "ENUM":
        possible = np.unique(values.astype(int)).astype(int).tolist()
    return NormalizationParameters(kind, lam, shift, mean, stddev, possible, quantiles, lo, hi)


def num_outputs(params):
    n = 0
    for p in params.values():
        n += len(p.possible_values) if p.feature_type == "ENUM" else 1
    return n


def starts(features, params):
    out, at = [], 0
    for f in features:
        out.append(at)
        at += len(params[f].possible_values) if params[f].feature_type == "ENUM" else 1
    return out


def order(params):
    features, first = [], []
    for kind in TYPES:
        first.append(len(features))
        for f in sorted(params.keys()):
            if params[f].feature_type == kind:
                features.append(f)
    return features, first


def deserialize(parameters_json):
    return {int(f): NormalizationParameters(**json.loads(text)) for f, text in parameters_json.items()}


def serialize_one(p):
    return json.dumps(asdict(p))


def serialize(parameters):
    return {f: json.dumps(asdict(p)) for f, p in parameters.items()}


def metadata(feature_name, feature_value_list, norm_params):
    if len(feature_value_list) < 20:
        return None
    override = None
    if norm_params["feature_overrides"] is not None:
        override = norm_params["feature_overrides"].get(feature_name, None)
    override = override or norm_params.get("default_feature_override", None)
    values = np.array(feature_value_list, dtype=np.float32)
    return ident(
        feature_name, values, norm_params["max_unique_enum_values"], norm_params["quantile_size"],
        norm_params["quantile_k2_threshold"], norm_params["skip_box_cox"], norm_params["skip_quantiles"], override,
    )


def metadata_rejects(feature_name, feature_value_list, norm_params):
    if len(feature_value_list) < 20:
        return None
    values = np.array(feature_value_list, dtype=np.float32)
    assert not np.any(np.isinf(values))
    assert not np.any(np.isnan(values))


def action_scale(params, overrides):
    features = order(params)[0]
    lo = np.zeros((1, len(features)))
    hi = np.zeros((1, len(features)))
    for i, f in enumerate(features):
        if f in overrides:
            lo[0][i] = overrides[f][0]
            hi[0][i] = overrides[f][1]
        else:
            lo[0][i] = params[f].min_value
            hi[0][i] = params[f].max_value
    return torch.from_numpy(lo), torch.from_numpy(hi)


def feature_config(float_features):
    infos = [rlt.FloatFeatureInfo(name=name, feature_id=fid) for fid, name in (float_features or [])]
    return rlt.ModelFeatureConfig(float_feature_infos=infos)
