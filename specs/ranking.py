"""Reference definitions: ranking inputs and Frechet sorting."""
import math

import torch
import torch.nn.functional as F
from reagent.torch_utils import gather
from reagent.types import FeatureData, PreprocessedRankingInput
from torch.distributions import Gumbel


def ranking_input(self, state, candidates, device, action, optimal_action, logged_propensities, slate_reward, position_reward, extras):
    n, num, dim = candidates.shape

    def slots(ranking):
        if ranking is None:
            return None, None, None, None, None
        length = ranking.shape[1]
        # candidate i is symbol i + 2: 0 is padding and 1 starts decoding
        out_idx = ranking + 2
        in_idx = torch.full((n, length), 1)
        in_idx[:, 1:] = out_idx[:, :-1]
        symbols = torch.cat((torch.zeros(n, 2, dim), candidates), dim=1)
        out_seq = gather(symbols, out_idx)
        in_seq = torch.zeros(n, length, dim)
        in_seq[:, 1:] = out_seq[:, :-1]
        earlier = ~torch.triu(torch.ones(1, length, length, dtype=torch.bool), diagonal=1)
        return in_idx, out_idx, in_seq, out_seq, earlier

    a = slots(action)
    b = slots(optimal_action)
    return PreprocessedRankingInput(
        state=FeatureData(float_features=state),
        src_seq=FeatureData(float_features=candidates),
        src_src_mask=torch.ones(n, num, num),
        src_in_idx=torch.arange(num).repeat(n, 1) + 2,
        tgt_in_idx=a[0],
        tgt_out_idx=a[1],
        tgt_in_seq=FeatureData(float_features=a[2]) if a[2] is not None else None,
        tgt_out_seq=FeatureData(float_features=a[3]) if a[3] is not None else None,
        tgt_tgt_mask=a[4],
        optim_tgt_in_idx=b[0],
        optim_tgt_out_idx=b[1],
        optim_tgt_in_seq=FeatureData(float_features=b[2]) if b[2] is not None else None,
        optim_tgt_out_seq=FeatureData(float_features=b[3]) if b[3] is not None else None,
        slate_reward=slate_reward,
        position_reward=position_reward,
        tgt_out_probs=logged_propensities,
        extras=extras if extras is not None else None,
    )


def wrapped(self, state, src_seq, src_src_mask, tgt_in_seq, tgt_out_seq, tgt_tgt_mask, slate_reward, position_reward, src_in_idx, tgt_in_idx,
            tgt_out_idx, tgt_out_probs, optim_tgt_in_idx, optim_tgt_out_idx, optim_tgt_in_seq, optim_tgt_out_seq, extras, **kwargs):
    def boxed(x):
        if x is None:
            return None
        return FeatureData(float_features=x)

    return PreprocessedRankingInput(
        state=FeatureData(float_features=state), src_seq=FeatureData(float_features=src_seq), src_src_mask=src_src_mask,
        tgt_in_seq=boxed(tgt_in_seq), tgt_out_seq=boxed(tgt_out_seq), tgt_tgt_mask=tgt_tgt_mask, slate_reward=slate_reward, position_reward=position_reward,
        src_in_idx=src_in_idx, tgt_in_idx=tgt_in_idx, tgt_out_idx=tgt_out_idx, tgt_out_probs=tgt_out_probs, optim_tgt_in_idx=optim_tgt_in_idx,
        optim_tgt_out_idx=optim_tgt_out_idx, optim_tgt_in_seq=boxed(optim_tgt_in_seq), optim_tgt_out_seq=boxed(optim_tgt_out_seq), extras=extras)


def only_wrapped(self):
    for x in (self.state, self.src_seq, self.tgt_in_seq, self.tgt_out_seq, self.optim_tgt_in_seq, self.optim_tgt_out_seq):
        if isinstance(x, torch.Tensor):
            raise ValueError()


def rows(self):
    return self.state.float_features.size()[0]


def inner_rows(self):
    return self.training_input.state.float_features.size()[0]


def gathered(data, index_2d):
    n, dim, length = data.shape[0], data.shape[2], index_2d.shape[1]
    rows = torch.arange(n).repeat_interleave(torch.tensor([length]))
    return data[rows, index_2d.flatten()].view(n, length, dim)


def earlier_only(size, device):
    return ~torch.triu(torch.ones(1, size, size, dtype=torch.bool), diagonal=1)


# Frechet sort -------------------------------------------------------------

def frechet_init(self, ctor):
    self.shape = ctor.shape
    self.topk = ctor.topk
    # probabilities cover the first equiv_len ranks, by default all ranks that are output
    self.upto = ctor.topk if ctor.topk is not None and ctor.equiv_len is None else ctor.equiv_len
    if ctor.topk is not None and self.upto > ctor.topk:
        raise ValueError()
    self.gumbel_noise = Gumbel(0, 1.0 / ctor.shape)
    self.log_scores = ctor.log_scores
    return self


def sampled(self, ctor, scores):
    from reagent import types as rlt
    logs = scores if self.log_scores else torch.log(scores)
    noisy = logs + self.gumbel_noise.sample(scores.shape)
    ranking = torch.argsort(noisy.detach(), descending=True)
    prob = self.log_prob(scores, ranking)
    if self.topk is not None:
        ranking = ranking[:, : self.topk]
    return rlt.ActorOutput(ranking, prob)


def ranking_log_prob(self, ctor, scores, action):
    if len(scores.shape) == 1:
        scores = scores.unsqueeze(0)
        action = action.unsqueeze(0)
    if action.shape[1] > scores.shape[1]:
        raise ValueError()
    if action.shape[1] < scores.shape[1]:
        raise NotImplementedError()
    logs = scores if self.log_scores else torch.log(scores)
    # padding positions score minus infinity and contribute nothing
    padded = torch.cat([logs, torch.full((logs.shape[0], 1), -math.inf)], dim=1)
    s = torch.gather(padded, 1, action) * self.shape
    ranks = self.upto if self.upto is not None else logs.shape[-1]
    return sum(torch.nan_to_num(F.log_softmax(s[:, i:], dim=1)[:, 0], neginf=0.0) for i in range(ranks))
