"""Serving: what a scorer exported for production computes from raw (value, presence) inputs."""
from typing import List

import reagent.types as rlt
import torch
import torch.nn.functional as F
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.preprocessing.sparse_preprocessor import make_sparse_preprocessor
from reagent.torch_utils import gather
from reagent.training.utils import gen_permutations
from reagent.training.world_model.seq2reward_trainer import get_Q
from reagent.prediction.predictor_wrapper import SlateRankingPreprocessor, sparse_input_prototype, serving_to_feature_data


def feature_data(serving, dense_preprocessor, sparse_preprocessor):
    dense, id_lists, id_score_lists = serving
    value, presence = dense
    return rlt.FeatureData(
        float_features=dense_preprocessor(value, presence),
        id_list_features=sparse_preprocessor.preprocess_id_list(id_lists),
        id_score_list_features=sparse_preprocessor.preprocess_id_score_list(id_score_lists),
    )


def sparse_prototype(model, state_preprocessor, state_feature_config):
    # one example input: the model's own sparse features under their serving ids, placeholders otherwise
    ids = state_feature_config.name2id
    proto = model.input_prototype()
    id_list = {42: (torch.zeros(1, dtype=torch.long), torch.tensor([], dtype=torch.long))}
    id_score_list = {42: (torch.zeros(1, dtype=torch.long), torch.tensor([], dtype=torch.long), torch.tensor([], dtype=torch.float))}
    if isinstance(proto, rlt.FeatureData):
        if proto.id_list_features:
            id_list = {ids[k]: v for k, v in proto.id_list_features.items()}
        if proto.id_score_list_features:
            id_score_list = {ids[k]: v for k, v in proto.id_score_list_features.items()}
    return (
        rlt.ServingFeatureData(
            float_features_with_presence=state_preprocessor.input_prototype(),
            id_list_features=id_list,
            id_score_list_features=id_score_list,
        ),
    )


# ---------------------------------------------------------------- discrete values
def discrete_init(self, ctor):
    self.model = ctor.model
    self.state_preprocessor = ctor.state_preprocessor
    self.state_feature_config = ctor.state_feature_config
    self.sparse_preprocessor = make_sparse_preprocessor(ctor.state_feature_config, device=torch.device("cpu"))


def discrete(self, ctor, state):
    return self.model(serving_to_feature_data(state, self.state_preprocessor, self.sparse_preprocessor))


def discrete_prototype(self, ctor):
    return sparse_input_prototype(
        model=self.model, state_preprocessor=self.state_preprocessor, state_feature_config=self.state_feature_config)


def discrete_wrapper_init(self, ctor):
    m = ctor.dqn_with_preprocessor
    self.dqn_with_preprocessor = torch.jit.trace(m, m.input_prototype())
    self.action_names = torch.jit.Attribute(ctor.action_names, List[str])


def discrete_wrapper(self, ctor, state):
    # names in the order of the model's outputs
    return (self.action_names, self.dqn_with_preprocessor(state))


def sparse_unwrapper(self, ctor, state_with_presence, state_id_list_features, state_id_score_list_features):
    return self.model(
        rlt.ServingFeatureData(
            float_features_with_presence=state_with_presence,
            id_list_features=state_id_list_features,
            id_score_list_features=state_id_score_list_features,
        )
    )


def unwrapper_init(self, ctor):
    self.model = ctor.model


def compressed(self, ctor, state):
    return self.model(serving_to_feature_data(state, self.state_preprocessor, self.sparse_preprocessor).float_features)


# ---------------------------------------------------------------- parametric values
def parametric_init(self, ctor):
    self.model = ctor.model
    self.state_preprocessor = ctor.state_preprocessor
    self.action_preprocessor = ctor.action_preprocessor


def parametric(self, ctor, state, action):
    s = self.state_preprocessor(state[0], state[1])
    a = self.action_preprocessor(action[0], action[1])
    return self.model(rlt.FeatureData(float_features=s), rlt.FeatureData(float_features=a))


def parametric_prototype(self, ctor):
    return (self.state_preprocessor.input_prototype(), self.action_preprocessor.input_prototype())


def parametric_wrapper_init(self, ctor):
    m = ctor.dqn_with_preprocessor
    self.dqn_with_preprocessor = torch.jit.trace(m, m.input_prototype())


def parametric_wrapper(self, ctor, state, action):
    return (["Q"], self.dqn_with_preprocessor(state, action))


# ---------------------------------------------------------------- actors
def actor_init(self, ctor):
    self.model = ctor.model
    self.state_preprocessor = ctor.state_preprocessor
    self.action_postprocessor = ctor.action_postprocessor
    self.serve_mean_policy = ctor.serve_mean_policy


def actor(self, ctor, state):
    out = self.model(rlt.FeatureData(float_features=self.state_preprocessor(state[0], state[1])))
    action = out.squashed_mean if self.serve_mean_policy else out.action
    return self.action_postprocessor(action) if self.action_postprocessor else action


def actor_prototype(self, ctor):
    return (self.state_preprocessor.input_prototype(),)


def actor_wrapper_init(self, ctor):
    m = ctor.actor_with_preprocessor
    self.actor_with_preprocessor = torch.jit.trace(m, m.input_prototype())


def actor_wrapper(self, ctor, state):
    return self.actor_with_preprocessor(state)


def ranking_actor_init(self, ctor):
    self.model = ctor.model
    self.state_preprocessor = ctor.state_preprocessor
    self.candidate_preprocessor = ctor.candidate_preprocessor
    self.num_candidates = ctor.num_candidates
    self.action_postprocessor = ctor.action_postprocessor


def ranking_actor(self, ctor, state, candidates):
    docs = rlt.DocList(
        float_features=torch.stack([self.candidate_preprocessor(c[0], c[1]) for c in candidates], dim=1),
        mask=torch.tensor(-1),
        value=torch.tensor(-1),
    )
    inp = rlt._embed_states(rlt.FeatureData(float_features=self.state_preprocessor(state[0], state[1]), candidate_docs=docs))
    action = self.model(inp).action
    if self.action_postprocessor is not None:
        action = self.action_postprocessor(action)
    return action


def ranking_actor_prototype(self, ctor):
    return (self.state_preprocessor.input_prototype(), [self.candidate_preprocessor.input_prototype()] * self.num_candidates)


def ranking_wrapper_init(self, ctor):
    m = ctor.actor_with_preprocessor
    self.actor_with_preprocessor = torch.jit.trace(m, m.input_prototype(), check_trace=False)


def ranking_wrapper(self, ctor, state, candidates):
    return self.actor_with_preprocessor(state, candidates)


# ---------------------------------------------------------------- slates
def slate_scorer_init(self, ctor):
    self.mlp = ctor.mlp
    self.state_preprocessor = ctor.state_preprocessor
    self.candidate_preprocessor = ctor.candidate_preprocessor


def slate_scores(self, ctor, state, candidates):
    n, k, _ = candidates[0].shape
    width = len(self.candidate_preprocessor.sorted_features)
    docs = self.candidate_preprocessor(
        candidates[0].view(n * k, width), candidates[1].view(n * k, width)).view(n, k, -1)
    inp = rlt.FeatureData(
        float_features=self.state_preprocessor(state[0], state[1]), candidate_docs=rlt.DocList(float_features=docs))
    return self.mlp(inp).view(n, k)


def slate_scorer_prototype(self, ctor):
    c = self.candidate_preprocessor.input_prototype()
    return (self.state_preprocessor.input_prototype(), (c[0].repeat((1, 5, 1)), c[1].repeat((1, 5, 1))))


def slate_inputs_init(self, ctor):
    self.state_preprocessor = ctor.state_preprocessor
    self.candidate_preprocessor = ctor.candidate_preprocessor


def slate_inputs(self, ctor, state, candidates):
    n, k, width = candidates[0].shape
    docs = self.candidate_preprocessor(candidates[0].view(n * k, width), candidates[1].view(n * k, width))
    return self.state_preprocessor(state[0], state[1]), docs.view(n, k, -1)


def slate_inputs_prototype(self, ctor):
    c = self.candidate_preprocessor.input_prototype()
    return (self.state_preprocessor.input_prototype(), (c[0].repeat((1, 10, 1)), c[1].repeat((1, 10, 1))))


def seq2slate_init(self, ctor):
    pre = SlateRankingPreprocessor(ctor.state_preprocessor, ctor.candidate_preprocessor)
    self.input_prototype_data = pre.input_prototype()
    self.preprocessor = torch.jit.trace(pre, pre.input_prototype())
    self.model = torch.jit.script(ctor.model.seq2slate)
    self.greedy = ctor.greedy
    self.state_sorted_features = ctor.state_preprocessor.sorted_features
    self.candidate_sorted_features = ctor.candidate_preprocessor.sorted_features
    self.state_feature_id_to_index = ctor.state_preprocessor.feature_id_to_index
    self.candidate_feature_id_to_index = ctor.candidate_preprocessor.feature_id_to_index


def seq2slate(self, ctor, state, candidates):
    s, c = self.preprocessor(state, candidates)
    out = self.model(
        mode=Seq2SlateMode.RANK_MODE.value, state=s, src_seq=c, tgt_seq_len=c.shape[1], greedy=self.greedy)
    return (out.ranked_per_symbol_probs, out.ranked_per_seq_probs, out.ranked_tgt_out_idx)


def seq2slate_prototype(self, ctor):
    return self.input_prototype_data


def seq2slate_wrapper_init(self, ctor):
    self.seq2slate_with_preprocessor = torch.jit.script(ctor.seq2slate_with_preprocessor)


def seq2slate_wrapper(self, ctor, state, candidates):
    _, prob, idx = self.seq2slate_with_preprocessor(state, candidates)
    # positions in the caller's candidate list: the decoder reserves two symbols
    return prob, idx - 2


def slate_reward_init(self, ctor):
    self.model = ctor.model
    self.state_preprocessor = ctor.state_preprocessor
    self.candidate_preprocessor = ctor.candidate_preprocessor


def slate_reward(self, ctor, state, candidates):
    n = state[0].shape[0]
    tgt = self.model.max_tgt_seq_len
    src = self.model.max_src_seq_len
    width = len(self.candidate_preprocessor.sorted_features)
    s = self.state_preprocessor(state[0], state[1])
    c = self.candidate_preprocessor(
        candidates[0].view(n * src, width), candidates[1].view(n * src, width)).view(n, src, -1)
    # the slate evaluated is the candidates in the order received
    slates = [(torch.arange(tgt), torch.ones(tgt))] * n
    idx = torch.cat([x[0] for x in slates]).view(n, tgt)
    return self.model(
        rlt.PreprocessedRankingInput.from_tensors(
            state=s,
            src_seq=c,
            src_src_mask=torch.ones(n, src, src),
            tgt_out_seq=gather(c, idx),
            tgt_out_idx=idx + 2,
        )
    ).predicted_reward


def slate_reward_prototype(self, ctor):
    c = self.candidate_preprocessor.input_prototype()
    k = self.model.max_src_seq_len
    return (self.state_preprocessor.input_prototype(), (c[0].repeat((1, k, 1)), c[1].repeat((1, k, 1))))


def state_features(self, ctor):
    return self.state_preprocessor.sorted_features


def candidate_features(self, ctor):
    return self.candidate_preprocessor.sorted_features


# ---------------------------------------------------------------- world models
def seq2reward_init(self, ctor):
    self.model = ctor.model
    self.state_preprocessor = ctor.state_preprocessor
    self.sparse_preprocessor = make_sparse_preprocessor(rlt.ModelFeatureConfig(), device=torch.device("cpu"))
    self.seq_len = ctor.seq_len
    self.num_action = ctor.num_action
    self.all_permut = gen_permutations(ctor.seq_len, ctor.num_action)


def seq2reward(self, ctor, state):
    dense, _, _ = state
    n, _ = dense[0].size()
    return get_Q(self.model, self.state_preprocessor(dense[0], dense[1]).reshape(n, -1), self.all_permut)


def short_seq_init(self, ctor):
    self.model = ctor.model
    self.step_model = ctor.step_model
    self.state_preprocessor = ctor.state_preprocessor
    self.seq_len = ctor.seq_len
    self.num_action = ctor.num_action
    # every action sequence of each look-ahead length 1..seq_len
    self.all_permut = {s + 1: gen_permutations(s + 1, ctor.num_action) for s in range(ctor.seq_len)}


def short_seq(self, ctor, state):
    dense, _, _ = state
    n, _ = dense[0].size()
    s = self.state_preprocessor(dense[0], dense[1]).reshape(n, -1)
    p = F.softmax(self.step_model(s), dim=1)
    per_step = torch.cat(
        [get_Q(self.model, s, self.all_permut[i + 1]).unsqueeze(1) for i in range(self.seq_len)], dim=1)
    return torch.sum(per_step * p.unsqueeze(2), dim=1)


def mdnrnn_init(self, ctor):
    self.model = ctor.model
    self.state_preprocessor = ctor.state_preprocessor
    self.state_feature_config = ctor.state_feature_config or rlt.ModelFeatureConfig()
    self.sparse_preprocessor = make_sparse_preprocessor(self.state_feature_config, device=torch.device("cpu"))
    self.seq_len = ctor.seq_len
    self.num_action = ctor.num_action


def mdnrnn(self, ctor, state, action):
    n, _ = state[0].size()
    s = self.state_preprocessor(state[0], state[1]).reshape(n, self.seq_len, -1).transpose(0, 1)
    return self.model(action, s)


def mdnrnn_prototype(self, ctor):
    return (
        self.state_preprocessor.input_prototype(),
        torch.randn(1, 1, self.num_action, device=self.state_preprocessor.device),
    )


# ---------------------------------------------------------------- determinantal point process
def dpp_init(self, ctor):
    self.alpha = ctor.alpha
    self.MIN_VALUE = -3.4e38


def dpp_gains(self, ctor, L, chosen):
    k = L.shape[0]
    dets = torch.full((k,), self.MIN_VALUE, device=L.device)
    for i in range(k):
        if i not in chosen:
            dets[i] = torch.det(L[:, chosen + [i]][chosen + [i]])
    return dets


def dpp_greedy(self, ctor, L):
    k = L.shape[0]
    dets = torch.zeros(k, k, device=L.device)
    chosen = []
    for i in range(k):
        gain = self.unchosen_dets(L, chosen)
        dets[i, :] = gain
        chosen.append(torch.argmax(gain).item())
    return torch.tensor(chosen), dets


def dpp(self, ctor, quality, features):
    q = quality.float()
    f = F.normalize(features.float(), p=2.0, dim=1)
    k = q.shape[0]
    B = (self.alpha ** 0.5) * q * f
    L = torch.mm(B, B.T)
    L[torch.arange(k), torch.arange(k)] = q.squeeze(1) ** 2
    chosen, dets = self.greedy_select(L)
    return chosen, dets, L, B
