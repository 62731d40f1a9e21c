"""Reference definitions: dense preprocessing and its inverse."""
import torch
from reagent.preprocessing.normalization import get_num_output_features

EPS = 1e-6
TYPES = ("BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DISCRETE_ACTION",
         "DO_NOT_PREPROCESS", "CLIP_LOG")


def forward(self, ctor, input, present):
    outputs = []
    cols = torch.split(input, self.split_sections, dim=1)
    there = torch.split(present.float(), self.split_sections, dim=1)
    at = 0
    for i, kind in enumerate(TYPES):
        lo = self.feature_starts[i]
        hi = len(self.normalization_parameters) if i == 9 else self.feature_starts[i + 1]
        if lo == hi:
            continue
        if kind == "ENUM":
            for j in range(lo, hi):
                p = self.normalization_parameters[self.sorted_features[j]]
                outputs.append(self._preprocess_feature_single_column(j, cols[at], p) * there[at])
                at += 1
        else:
            ps = [self.normalization_parameters[f] for f in self.sorted_features[lo:hi]]
            out = self._preprocess_feature_multi_column(lo, cols[at], ps) * there[at]
            at += 1
            outputs.append(out if kind == "DO_NOT_PREPROCESS" else torch.clamp(out, -6.0, 6.0))
    return torch.cat(outputs, dim=1)


def single(self, ctor, begin_index, input, norm_params):
    return getattr(self, "_preprocess_" + norm_params.feature_type)(begin_index, input, norm_params)


def multi(self, ctor, begin_index, input, norm_params):
    return getattr(self, "_preprocess_" + norm_params[0].feature_type)(begin_index, input, norm_params)


def identity(self, ctor, begin_index, input, norm_params):
    return input


def binary(self, ctor, begin_index, input, norm_params):
    return 1.0 - (input == 0.0).float()


def clip_log(self, ctor, begin_index, input, norm_params):
    return input.clip(EPS).log()


def probability(self, ctor, begin_index, input, norm_params):
    p = torch.clamp(input, 0.01, 0.99)
    return -((1.0 / p) - 1.0).log()


def action_params(self, ctor, begin_index, norm_params):
    n = len(norm_params)
    self._create_parameter(begin_index, "min_serving_value", torch.tensor([p.min_value for p in norm_params]))
    self._create_parameter(begin_index, "min_training_value", torch.ones(n) * -1 + EPS)
    self._create_parameter(
        begin_index, "scaling_factor",
        (torch.ones(n) - EPS) * 2 / torch.tensor([p.max_value - p.min_value for p in norm_params]),
    )


def action(self, ctor, begin_index, input, norm_params):
    lo = self._fetch_parameter(begin_index, "min_serving_value")
    to = self._fetch_parameter(begin_index, "min_training_value")
    k = self._fetch_parameter(begin_index, "scaling_factor")
    return torch.clamp((input - lo) * k + to, -1 + EPS, 1 - EPS)


def continuous_params(self, ctor, begin_index, norm_params):
    self._create_parameter(begin_index, "means", torch.tensor([p.mean for p in norm_params]))
    self._create_parameter(begin_index, "stddevs", torch.tensor([p.stddev for p in norm_params]))


def continuous(self, ctor, begin_index, input, norm_params):
    return (input - self._fetch_parameter(begin_index, "means")) / self._fetch_parameter(begin_index, "stddevs")


def boxcox_params(self, ctor, begin_index, norm_params):
    self._create_parameter(begin_index, "shifts", torch.tensor([p.boxcox_shift for p in norm_params]))
    self._create_parameter(begin_index, "lambdas", torch.tensor([p.boxcox_lambda for p in norm_params]))
    self._create_parameter(begin_index, "means", torch.tensor([p.mean for p in norm_params]))
    self._create_parameter(begin_index, "stddevs", torch.tensor([p.stddev for p in norm_params]))


def boxcox(self, ctor, begin_index, input, norm_params):
    lam = self._fetch_parameter(begin_index, "lambdas")
    t = (torch.pow(torch.clamp(input + self._fetch_parameter(begin_index, "shifts"), 1e-6), lam) - 1.0) / lam
    return (t - self._fetch_parameter(begin_index, "means")) / self._fetch_parameter(begin_index, "stddevs")


def quantile_params(self, ctor, begin_index, norm_params):
    F = len(norm_params)
    count = torch.tensor([[float(len(p.quantiles)) - 1 for p in norm_params]])
    B = int(torch.max(torch.tensor([len(p.quantiles) for p in norm_params])).item())
    edges = torch.zeros([1, F, B])
    top = torch.zeros([1, F])
    bottom = torch.zeros([1, F])
    for i, p in enumerate(norm_params):
        edges[0, i, :] = p.quantiles[-1]
        edges[0, i, 0:len(p.quantiles)] = torch.tensor(p.quantiles)
        top[0, i] = max(p.quantiles)
        bottom[0, i] = min(p.quantiles)
    self._create_parameter(begin_index, "num_quantiles", count)
    self._create_parameter(begin_index, "quantile_boundaries", edges)
    self._create_parameter(begin_index, "max_quantile_boundaries", top)
    self._create_parameter(begin_index, "min_quantile_boundaries", bottom)
    self._create_parameter(begin_index, "quantile_boundary_mask", torch.ones([1, F, B]))


def quantile(self, ctor, begin_index, input, norm_params):
    edges = self._fetch_parameter(begin_index, "quantile_boundaries")
    wide = input.unsqueeze(2) * self._fetch_parameter(begin_index, "quantile_boundary_mask")
    above = (wide >= edges).float()
    below = (wide < edges).float()
    top = (input >= self._fetch_parameter(begin_index, "max_quantile_boundaries")).float()
    bottom = (input <= self._fetch_parameter(begin_index, "min_quantile_boundaries")).float()
    inside = ((bottom + top) < 0.01).float()
    left, _ = torch.max(above * edges + below * -1e20, dim=2)
    right, _ = torch.min(below * edges + above * 1e20, dim=2)
    rank = torch.sum(above, dim=2) - 1.0 + (input - left) / (right + EPS - left)
    return top + inside * (rank / self._fetch_parameter(begin_index, "num_quantiles"))


def enum_params(self, ctor, begin_index, norm_params):
    self._create_parameter(
        begin_index, "enum_values", torch.tensor(norm_params.possible_values, dtype=torch.float).unsqueeze(0)
    )


def enum(self, ctor, begin_index, input, norm_params):
    return (input == self._fetch_parameter(begin_index, "enum_values")).float()


def sort_features(self, ctor):
    index, order, starts = {}, [], []
    for kind in TYPES:
        starts.append(len(order))
        for f in sorted(self.normalization_parameters.keys()):
            if self.normalization_parameters[f].feature_type == kind:
                index[f] = len(order)
                order.append(f)
    return index, order, starts


def boundaries(self, ctor):
    starts = []
    kind_at = -1
    for i, f in enumerate(self.sorted_features):
        k = TYPES.index(self.normalization_parameters[f].feature_type)
        while k > kind_at:
            starts.append(i)
            kind_at += 1
    while kind_at < len(TYPES):
        starts.append(len(self.sorted_features))
        kind_at += 1
    return starts


def create(self, ctor, begin_index, name, t):
    p = torch.nn.Parameter(t, requires_grad=False)
    setattr(self, "_auto_parameter_" + str(begin_index) + "_" + name, p)
    return p


def fetch(self, ctor, begin_index, name):
    return getattr(self, "_auto_parameter_" + str(begin_index) + "_" + name)


def check(self, ctor, batch, norm_params):
    kind = norm_params[0].feature_type
    if self.training and kind not in ("BOXCOX", "CONTINUOUS", "DO_NOT_PREPROCESS"):
        if batch.max().item() > 6.0:
            raise Exception()
        if batch.min().item() < -6.0:
            raise Exception()


def init(self, ctor):
    sections = []
    self.normalization_parameters = ctor.normalization_parameters
    (self.feature_id_to_index, self.sorted_features, self.sorted_feature_boundaries) = self._sort_features_by_normalization()
    self.feature_starts = self._get_type_boundaries()
    self.zero_tensor = torch.nn.Parameter(torch.tensor([0.0]), requires_grad=False)
    self.one_tensor = torch.nn.Parameter(torch.tensor([1.0]), requires_grad=False)
    self.one_half_tensor = torch.nn.Parameter(torch.tensor([0.5]), requires_grad=False)
    self.one_hundredth_tensor = torch.nn.Parameter(torch.tensor([0.01]), requires_grad=False)
    self.negative_one_tensor = torch.nn.Parameter(torch.tensor([-1.0]), requires_grad=False)
    self.min_tensor = torch.nn.Parameter(torch.tensor([-1e20]), requires_grad=False)
    self.max_tensor = torch.nn.Parameter(torch.tensor([1e20]), requires_grad=False)
    self.epsilon_tensor = torch.nn.Parameter(torch.tensor([EPS]), requires_grad=False)
    for i, kind in enumerate(TYPES):
        lo = self.feature_starts[i]
        hi = len(self.normalization_parameters) if i == 9 else self.feature_starts[i + 1]
        if lo == hi:
            continue
        make = getattr(self, "_create_parameters_" + kind)
        if kind == "ENUM":
            for j in range(lo, hi):
                make(j, self.normalization_parameters[self.sorted_features[j]])
                sections.append(1)
        else:
            make(lo, [self.normalization_parameters[f] for f in self.sorted_features[lo:hi]])
            sections.append(hi - lo)
    self.split_sections = sections


def no_params(self, ctor, begin_index, norm_params):
    pass


# the inverse


def post_init(self, ctor):
    self.num_output_features = get_num_output_features(ctor.normalization_parameters)
    kinds = {p.feature_type for p in ctor.normalization_parameters.values()}
    assert len(kinds) == 1
    kind = list(kinds)[0]
    assert kind in {"DISCRETE_ACTION", "CONTINUOUS_ACTION", "DO_NOT_PREPROCESS"}
    self.feature_type = kind
    if kind == "CONTINUOUS_ACTION":
        order = sorted(ctor.normalization_parameters.keys())
        self.min_serving_value = torch.tensor([ctor.normalization_parameters[f].min_value for f in order]).float()
        self.scaling_factor = torch.tensor(
            [
                (ctor.normalization_parameters[f].max_value - ctor.normalization_parameters[f].min_value) / (2 * (1 - EPS))
                for f in order
            ]
        ).float()
        self.almost_one = torch.tensor(1.0 - EPS).float()


def post(self, ctor, input):
    if self.feature_type == "CONTINUOUS_ACTION":
        return (self.almost_one + torch.clamp(input, -self.almost_one, self.almost_one)) * self.scaling_factor \
            + self.min_serving_value
    return input
