"""Reference semantics of the network builders."""
import reagent.models as models
from reagent import types as rlt
from reagent.models.actor import DirichletFullyConnectedActor, FullyConnectedActor, GaussianFullyConnectedActor
from reagent.models.base import ModelBase
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.models.critic import FullyConnectedCritic
from reagent.models.dqn import FullyConnectedDQN
from reagent.models.dueling_q_network import DuelingQNetwork
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.seq2slate import Seq2SlateTransformerNet
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
from reagent.net_builder.quantile_dqn_net_builder import _Mean
from reagent.prediction.predictor_wrapper import (
    ActorPredictorWrapper,
    ActorWithPreprocessor,
    DiscreteDqnPredictorWrapper,
    DiscreteDqnWithPreprocessor,
    ParametricDqnPredictorWrapper,
    ParametricDqnWithPreprocessor,
    RankingActorPredictorWrapper,
    RankingActorWithPreprocessor,
)
from reagent.preprocessing.normalization import get_num_output_features
from reagent.preprocessing.postprocessor import Postprocessor
from reagent.preprocessing.preprocessor import Preprocessor


def width(norm):
    return get_num_output_features(norm.dense_normalization_parameters)


def inputs(norm):
    return Preprocessor(norm.dense_normalization_parameters, False)


def outputs(norm):
    return Postprocessor(norm.dense_normalization_parameters, False)


# ---- Q-networks over a fixed set of actions


def q_fc(self, state_feature_config, state_norm, output_dim):
    return FullyConnectedDQN(state_dim=width(state_norm), action_dim=output_dim, sizes=self.sizes, activations=self.activations,
                             dropout_ratio=self.dropout_ratio, use_batch_norm=self.use_batch_norm)


def q_dueling(self, state_feature_config, state_norm, output_dim):
    return DuelingQNetwork.make_fully_connected(width(state_norm), output_dim, layers=self.sizes, activations=self.activations)


def q_embedding(self, state_feature_config, state_norm, output_dim):
    embed = models.EmbeddingBagConcat(state_dim=width(state_norm), model_feature_config=state_feature_config, embedding_dim=self.embedding_dim)
    head = FullyConnectedDQN(state_dim=embed.output_dim, action_dim=output_dim, sizes=self.sizes, activations=self.activations,
                             dropout_ratio=self.dropout_ratio)
    return models.Sequential(embed, rlt.TensorFeatureData(), head)


def q_quantile(self, state_norm, output_dim, num_atoms):
    return FullyConnectedDQN(state_dim=width(state_norm), action_dim=output_dim, sizes=self.sizes, activations=self.activations,
                             num_atoms=num_atoms, dropout_ratio=self.dropout_ratio)


def q_dueling_quantile(self, state_norm, output_dim, num_atoms):
    return DuelingQNetwork.make_fully_connected(width(state_norm), output_dim, layers=self.sizes, activations=self.activations, num_atoms=num_atoms)


def q_categorical(self, state_norm, output_dim, num_atoms, qmin, qmax):
    net = FullyConnectedDQN(state_dim=width(state_norm), action_dim=output_dim, sizes=self.sizes, activations=self.activations,
                            num_atoms=num_atoms)
    return CategoricalDQN(net, qmin=qmin, qmax=qmax, num_atoms=num_atoms)


def mean(self, input):
    return input.mean(dim=2)


def q_serving(self, q_network, state_norm, action_names, state_feature_config):
    net = DiscreteDqnWithPreprocessor(q_network.cpu_model().eval(), inputs(state_norm), state_feature_config)
    return DiscreteDqnPredictorWrapper(net, action_names, state_feature_config)


def quantile_serving(self, q_network, state_norm, action_names, state_feature_config):
    q = models.Sequential(q_network.cpu_model().eval(), _Mean())
    net = DiscreteDqnWithPreprocessor(q, inputs(state_norm), state_feature_config)
    return DiscreteDqnPredictorWrapper(net, action_names, state_feature_config)


# ---- critics


def critic(self, state_norm, action_norm, output_dim):
    return FullyConnectedCritic(state_dim=width(state_norm), action_dim=width(action_norm), sizes=self.sizes, activations=self.activations,
                                use_batch_norm=self.use_batch_norm, use_layer_norm=self.use_layer_norm, output_dim=output_dim)


def critic_serving(self, q_network, state_norm, action_norm):
    return ParametricDqnPredictorWrapper(ParametricDqnWithPreprocessor(q_network.cpu_model().eval(), inputs(state_norm), inputs(action_norm)))


def value(self, state_norm, output_dim):
    return FullyConnectedNetwork([width(state_norm)] + self.sizes + [output_dim], self.activations + ["linear"], use_layer_norm=self.use_layer_norm)


def seq2reward(self, state_norm):
    return Seq2RewardNetwork(state_dim=width(state_norm), action_dim=self.action_dim, num_hiddens=self.num_hiddens,
                             num_hidden_layers=self.num_hidden_layers)


# ---- actors


def actor_fc(self, state_norm, action_norm):
    return FullyConnectedActor(state_dim=width(state_norm), action_dim=width(action_norm), sizes=self.sizes, activations=self.activations,
                               use_batch_norm=self.use_batch_norm, use_layer_norm=self.use_layer_norm, action_activation=self.action_activation,
                               exploration_variance=self.exploration_variance)


def actor_gaussian(self, state_norm, action_norm):
    return GaussianFullyConnectedActor(state_dim=width(state_norm), action_dim=width(action_norm), sizes=self.sizes, activations=self.activations,
                                       use_batch_norm=self.use_batch_norm, use_layer_norm=self.use_layer_norm,
                                       use_l2_normalization=self.use_l2_normalization)


def actor_dirichlet(self, state_norm, action_norm):
    return DirichletFullyConnectedActor(state_dim=width(state_norm), action_dim=width(action_norm), sizes=self.sizes, activations=self.activations,
                                        use_batch_norm=self.use_batch_norm)


def actor_discrete(self, state_norm, num_actions):
    return FullyConnectedActor(state_dim=width(state_norm), action_dim=num_actions, sizes=self.sizes, activations=self.activations,
                               use_batch_norm=self.use_batch_norm, use_layer_norm=self.use_layer_norm, action_activation=self.action_activation,
                               exploration_variance=self.exploration_variance)


def actor_serving(self, actor, state_norm, action_norm, serve_mean_policy):
    net = ActorWithPreprocessor(actor.cpu_model().eval(), inputs(state_norm), outputs(action_norm), serve_mean_policy=serve_mean_policy)
    return ActorPredictorWrapper(net, inputs(action_norm).sorted_features)


def ranking_actor_serving(self, actor, state_norm, candidate_norm, num_candidates, action_norm):
    net = RankingActorWithPreprocessor(model=actor.cpu_model().eval(), state_preprocessor=inputs(state_norm),
                                       candidate_preprocessor=inputs(candidate_norm), num_candidates=num_candidates,
                                       action_postprocessor=outputs(action_norm))
    return RankingActorPredictorWrapper(net, inputs(action_norm).sorted_features)


def discrete_actor_serving(self, actor, state_norm, action_feature_ids):
    net = ActorWithPreprocessor(actor.cpu_model().eval(), inputs(state_norm))
    return ActorPredictorWrapper(net, action_feature_ids)


# ---- slates


def slate_ranking(self, state_dim, candidate_dim, candidate_size, slate_size):
    t = self.transformer
    return Seq2SlateTransformerNet(state_dim=state_dim, candidate_dim=candidate_dim, num_stacked_layers=t.num_stacked_layers, num_heads=t.num_heads,
                                   dim_model=t.dim_model, dim_feedforward=t.dim_feedforward, max_src_seq_len=candidate_size,
                                   max_tgt_seq_len=slate_size, output_arch=self.output_arch, temperature=self.temperature,
                                   state_embed_dim=t.state_embed_dim)


def slate_reward_gru(self, state_dim, candidate_dim, candidate_size, slate_size):
    g = self.gru
    return Seq2SlateGRURewardNet(state_dim=state_dim, candidate_dim=candidate_dim, num_stacked_layers=g.num_stacked_layers, dim_model=g.dim_model,
                                 max_src_seq_len=candidate_size, max_tgt_seq_len=slate_size)


def slate_reward_transformer(self, state_dim, candidate_dim, candidate_size, slate_size):
    t = self.transformer
    return Seq2SlateTransformerRewardNet(state_dim=state_dim, candidate_dim=candidate_dim, num_stacked_layers=t.num_stacked_layers,
                                         num_heads=t.num_heads, dim_model=t.dim_model, dim_feedforward=t.dim_feedforward,
                                         max_src_seq_len=candidate_size, max_tgt_seq_len=slate_size)


def slate_wise(self):
    return self.fit_slate_wise_reward


def scaled(self, ctor):
    return "CONTINUOUS_ACTION"


def unscaled(self, ctor):
    return "DO_NOT_PREPROCESS"
