"""Reference definitions: networks."""
import math
from copy import deepcopy

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
import reagent.types as rlt
from reagent.models.critic import FullyConnectedCritic
from reagent.models.dqn import FullyConnectedDQN
from reagent.models.dueling_q_network import DuelingQNetwork, ParametricDuelingQNetwork
from reagent.models.fully_connected_network import FullyConnectedNetwork
from torch.distributions import Dirichlet
from torch.distributions.normal import Normal

ACTIVATIONS = {"tanh": nn.Tanh, "relu": nn.ReLU, "leaky_relu": nn.LeakyReLU, "linear": nn.Identity, "sigmoid": nn.Sigmoid}


# Q networks ------------------------------------------------------------------

def dqn_init(self, ctor):
    self.state_dim, self.action_dim, self.num_atoms = ctor.state_dim, ctor.action_dim, ctor.num_atoms
    widths = [ctor.state_dim] + ctor.sizes + [ctor.action_dim * (ctor.num_atoms or 1)]
    self.fc = FullyConnectedNetwork(
        widths, ctor.activations + ["linear"], use_batch_norm=ctor.use_batch_norm, dropout_ratio=ctor.dropout_ratio,
        normalize_output=ctor.normalized_output,
    )


def dqn(self, ctor, state, mask=None):
    q = self.fc(state.float_features)
    if self.num_atoms is not None:
        q = q.view(state.float_features.shape[0], self.action_dim, self.num_atoms)
    if mask is not None:
        q = q - (1 - mask) * 1e10
    return q


def dueling(self, ctor, state):
    hidden = rlt.FeatureData(self.shared_network(state))
    v = self.value_network(hidden)
    a = self.advantage_network(hidden)
    return v + (a - a.mean(dim=tuple(range(1, a.dim())), keepdim=True))


def dueling_build(self, state_dim, action_dim, layers, activations, num_atoms=None, use_batch_norm=False):
    width = layers[-1]
    shared = FullyConnectedDQN(state_dim, width, sizes=layers[:-1], activations=activations[:-1], normalized_output=True,
                               use_batch_norm=use_batch_norm)
    adv = FullyConnectedDQN(width, action_dim, sizes=[width // 2], activations=activations[-1:], num_atoms=num_atoms)
    val = FullyConnectedDQN(width, 1, sizes=[width // 2], activations=activations[-1:], num_atoms=num_atoms)
    return DuelingQNetwork(shared_network=shared, advantage_network=adv, value_network=val)


def parametric_dueling(self, ctor, state, action):
    hidden = rlt.FeatureData(self.shared_network(state))
    return self.value_network(hidden) + self.advantage_network(hidden, action)


def parametric_dueling_build(self, state_dim, action_dim, layers, activations, use_batch_norm=False):
    width = layers[-1]
    shared = FullyConnectedDQN(state_dim, width, sizes=layers[:-1], activations=activations[:-1], normalized_output=True)
    adv = FullyConnectedCritic(width, action_dim, sizes=[width // 2], activations=activations[-1:])
    val = FullyConnectedDQN(width, 1, sizes=[width // 2], activations=activations[-1:])
    return ParametricDuelingQNetwork(shared_network=shared, advantage_network=adv, value_network=val)


def stores_networks(self, ctor):
    self.shared_network = ctor.shared_network
    self.advantage_network = ctor.advantage_network
    self.value_network = ctor.value_network


def check_connection(model):
    model.eval()
    _ = model._get_values(model.input_prototype())
    model.train()


def categorical(self, ctor, state):
    p = F.softmax(self.distributional_network(state), -1)
    return (p * torch.linspace(ctor.qmin, ctor.qmax, ctor.num_atoms)).sum(2)


def categorical_log(self, ctor, state):
    return F.log_softmax(self.distributional_network(state), -1)


def bcq(self, ctor, state):
    p = F.softmax(self.imitator_network(state.float_features), dim=1)
    unlikely = (p / p.max(dim=1, keepdim=True)[0] < ctor.bcq_drop_threshold).float()
    return self.q_network(state) + -1e10 * unlikely


def critic(self, ctor, state, action):
    return self.fc(torch.cat((state.float_features, action.float_features), dim=-1))


def critic_init(self, ctor):
    self.state_dim, self.action_dim = ctor.state_dim, ctor.action_dim
    widths = [ctor.state_dim + ctor.action_dim] + ctor.sizes + [ctor.output_dim]
    self.fc = FullyConnectedNetwork(widths, ctor.activations + ["linear"], use_batch_norm=ctor.use_batch_norm,
                                    use_layer_norm=ctor.use_layer_norm)


def fc_init(self, ctor):
    mods = []
    n = len(ctor.activations)
    for i, ((a, b), act) in enumerate(zip(zip(ctor.layers, ctor.layers[1:]), ctor.activations)):
        if ctor.use_batch_norm:
            mods.append(nn.BatchNorm1d(a))
        mods.append(nn.Linear(a, b))
        if ctor.use_layer_norm and (ctor.normalize_output or i < n - 1):
            mods.append(nn.LayerNorm(b))
        if act in ACTIVATIONS:
            mods.append(ACTIVATIONS[act]())
        else:
            mods.append(getattr(nn, act)())
        if ctor.dropout_ratio > 0.0 and (ctor.normalize_output or i < n - 1):
            mods.append(nn.Dropout(p=ctor.dropout_ratio))
    self.dnn = nn.Sequential(*mods)


def fc(self, ctor, x):
    return self.dnn(x)


def fill(tensor, activation, dim_in, min_std=0.0):
    gain = math.sqrt(2) if activation in ("relu", "leaky_relu") else 1
    nn.init.normal_(tensor, mean=0, std=max(gain * math.sqrt(1 / dim_in), min_std))


def target_copy(self, ctor):
    return deepcopy(self)


def embed_init(self, ctor):
    cfg = ctor.model_feature_config
    self.embedding_bags = nn.ModuleDict({
        t: nn.EmbeddingBag(num_embeddings=m.table_size, embedding_dim=ctor.embedding_dim, mode="sum")
        for t, m in cfg.id_mapping_config.items()
    })
    self.feat2table = {f: c.id_mapping_name for f, c in cfg.name2config.items()}
    ids = [c.name for c in cfg.id_list_feature_configs]
    scored = [c.name for c in cfg.id_score_list_feature_configs]
    self._output_dim = ctor.state_dim + len(ids) * ctor.embedding_dim + len(scored) * ctor.embedding_dim


def embed(self, ctor, state):
    plain = [self.embedding_bags[self.feat2table[f]](input=v[1], offsets=v[0]) for f, v in state.id_list_features.items()]
    weighted = [
        self.embedding_bags[self.feat2table[f]](input=v[1], offsets=v[0], per_sample_weights=v[2])
        for f, v in state.id_score_list_features.items()
    ]
    return torch.cat(plain + weighted + [state.float_features], dim=1)


def embed_out(self, ctor):
    return self._output_dim


def conv_forward(self, ctor, x):
    for i, _ in enumerate(self.conv_layers):
        x = self.pool_layers[i](F.relu(self.conv_layers[i](x)))
    return x


def conv(self, ctor, x):
    return self.feed_forward(self.conv_forward(x).view(-1, self.fc_input_dim))


def scorer(self, ctor, obs):
    if self.log_transform:
        obs = rlt.FeatureData(
            float_features=obs.float_features.clip(1e-12).log(),
            candidate_docs=rlt.DocList(float_features=obs.candidate_docs.float_features.clip(1e-12).log()),
        )
    x = obs.concat_user_doc() if self.concat else obs.candidate_docs.float_features.float()
    return self.mlp(x).squeeze(-1)


def concat_user_doc(self):
    docs = self.candidate_docs.float_features
    user = self.float_features.unsqueeze(1).repeat(1, docs.shape[1], 1)
    return torch.cat((user, docs), dim=2)


# actors ----------------------------------------------------------------------

def stochastic_actor(self, ctor, state):
    return self.sampler.sample_action(self.scorer(state), possible_actions_mask=None)


def det_init(self, ctor):
    self.action_dim, self.exploration_variance = ctor.action_dim, ctor.exploration_variance
    self.fc = FullyConnectedNetwork([ctor.state_dim] + ctor.sizes + [ctor.action_dim], ctor.activations + [ctor.action_activation],
                                    use_batch_norm=ctor.use_batch_norm, use_layer_norm=ctor.use_layer_norm)


def det(self, ctor, state):
    a = self.fc(state.float_features)
    n = a.shape[0]
    if self.exploration_variance is None:
        return rlt.ActorOutput(action=a, log_prob=torch.zeros(n).view(-1, 1))
    dist = Normal(loc=torch.zeros(ctor.action_dim), scale=torch.ones(ctor.action_dim) * self.exploration_variance)
    noise = dist.sample((n,))
    return rlt.ActorOutput(action=(a + noise).clamp(-1.0, 1.0), log_prob=dist.log_prob(noise).sum(dim=1).view(-1, 1))


def gauss_init(self, ctor):
    self.action_dim = ctor.action_dim
    self.use_layer_norm, self.use_l2_normalization = ctor.use_layer_norm, ctor.use_l2_normalization
    if ctor.use_layer_norm:
        self.loc_layer_norm = nn.LayerNorm(ctor.action_dim)
        self.scale_layer_norm = nn.LayerNorm(ctor.action_dim)
    self.fc = FullyConnectedNetwork([ctor.state_dim] + ctor.sizes + [ctor.action_dim * 2], ctor.activations + ["linear"],
                                    use_batch_norm=ctor.use_batch_norm, use_layer_norm=ctor.use_layer_norm)


def params(self, state):
    both = self.fc(state.float_features)
    loc, log_scale = both[:, : self.action_dim], both[:, self.action_dim:]
    if self.use_layer_norm:
        loc, log_scale = self.loc_layer_norm(loc), self.scale_layer_norm(log_scale)
    return loc, log_scale.clamp(-20.0, 2.0)


def squash(self, raw):
    a = torch.tanh(raw).clamp(-1.0 + 1e-6, 1.0 - 1e-6)
    if self.use_l2_normalization:
        a = a / (a ** 2).sum(dim=1, keepdim=True).sqrt()
    return a


def density(self, ctor, state, a):
    loc, log_scale = params(self, state)
    z = (torch.atanh(a) - loc) / log_scale.exp()
    logp = -(z ** 2) / 2 - log_scale - math.log(math.sqrt(2 * math.pi))
    return (logp - (1 - a ** 2 + 1e-6).log()).sum(dim=1).reshape(-1, 1)


def gauss(self, ctor, state):
    loc, log_scale = params(self, state)
    a = squash(self, loc + torch.randn_like(log_scale) * log_scale.exp())
    return rlt.ActorOutput(action=a, log_prob=density(self, ctor, state, a), squashed_mean=squash(self, loc))


def dir_init(self, ctor):
    self.fc = FullyConnectedNetwork([ctor.state_dim] + ctor.sizes + [ctor.action_dim], ctor.activations + ["linear"],
                                    use_batch_norm=ctor.use_batch_norm)


def dir_density(self, ctor, state, action):
    return Dirichlet(self.fc(state.float_features).exp() + 1e-6).log_prob(action).unsqueeze(dim=1).detach()


def dirichlet(self, ctor, state):
    c = self.fc(state.float_features).exp() + 1e-6
    if self.training:
        a = Dirichlet(c).rsample()
        return rlt.ActorOutput(action=a, log_prob=Dirichlet(c).log_prob(a).unsqueeze(dim=1))
    return rlt.ActorOutput(action=torch._sample_dirichlet(c))


def conv_init(self, ctor):
    p = ctor.cnn_parameters
    self.conv_dims = p.conv_dims
    self.conv_layers = nn.ModuleList()
    self.pool_layers = nn.ModuleList()
    for i, _ in enumerate(p.conv_dims[1:]):
        self.conv_layers.append(
            nn.Conv2d(p.conv_dims[i], p.conv_dims[i + 1], kernel_size=(p.conv_height_kernels[i], p.conv_width_kernels[i])))
        nn.init.kaiming_normal_(self.conv_layers[i].weight)
        if p.pool_types[i] == "max":
            self.pool_layers.append(nn.MaxPool2d(kernel_size=p.pool_kernels_strides[i]))
        else:
            raise AssertionError
    out = self.conv_forward(torch.ones(1, p.num_input_channels, p.input_height, p.input_width))
    self.fc_input_dim = int(np.prod(out.size()[1:]))
    self.feed_forward = FullyConnectedNetwork([self.fc_input_dim] + ctor.layers[1:], ctor.activations)
    return self
