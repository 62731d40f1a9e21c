"""Reference definitions: networks that predict the reward of a whole slate, and the transformer building blocks they share with Seq2Slate."""
import copy
import math

import torch
import torch.nn as nn
import torch.nn.functional as F
from reagent import types as rlt
from reagent.model_utils.seq2slate_utils import clones, subsequent_mask
from reagent.models.seq2slate import Decoder, DecoderLayer, Embedder, Encoder, EncoderLayer, MultiHeadedAttention, PositionalEncoding, PositionwiseFeedForward, SublayerConnection
from reagent.torch_utils import gather


# building blocks ---------------------------------------------------------------

def residual_init(self, ctor):
    self.norm = nn.LayerNorm(ctor.dim_model)
    return self


def encoder_init(self, ctor):
    self.layers = clones(ctor.layer, ctor.num_layers)
    self.norm = nn.LayerNorm(ctor.layer.dim_model)
    return self


def decoder_init(self, ctor):
    self.layers = clones(ctor.layer, ctor.num_layers)
    self.norm = nn.LayerNorm(ctor.layer.size)
    return self


def encoder_layer_init(self, ctor):
    self.self_attn = ctor.self_attn
    self.feed_forward = ctor.feed_forward
    self.sublayer = clones(SublayerConnection(ctor.dim_model), 2)
    self.dim_model = ctor.dim_model
    return self


def decoder_layer_init(self, ctor):
    self.size = ctor.size
    self.self_attn = ctor.self_attn
    self.src_attn = ctor.src_attn
    self.feed_forward = ctor.feed_forward
    self.sublayer = clones(SublayerConnection(ctor.size), 3)
    return self


def encoder_layer(self, ctor, src_embed, src_mask):
    def attend(x):
        return self.self_attn(x, x, x, src_mask)

    return self.sublayer[1](self.sublayer[0](src_embed, attend), self.feed_forward)


def decoder_layer(self, ctor, x, m, tgt_src_mask, tgt_tgt_mask):
    def among(y):
        return self.self_attn(query=y, key=y, value=y, mask=tgt_tgt_mask)

    def over(y):
        return self.src_attn(query=y, key=m, value=m, mask=tgt_src_mask)

    return self.sublayer[2](self.sublayer[1](self.sublayer[0](x, among), over), self.feed_forward)


def heads_init(self, ctor):
    self.d_k = ctor.dim_model // ctor.num_heads
    self.num_heads = ctor.num_heads
    self.linears = clones(nn.Linear(ctor.dim_model, ctor.dim_model), 4)
    return self


def feed_forward_init(self, ctor):
    self.net = torch.nn.Sequential(torch.nn.Linear(ctor.dim_model, ctor.dim_feedforward), torch.nn.ReLU(),
                                   torch.nn.Linear(ctor.dim_feedforward, ctor.dim_model))
    return self


def baseline_init(self, ctor):
    # state -> one number
    # layers are not shared
    hidden = [m for _ in range(ctor.num_stacked_layers - 1) for m in (nn.Linear(ctor.dim_feedforward, ctor.dim_feedforward), nn.ReLU())]
    self.mlp = nn.Sequential(*([nn.Linear(ctor.state_dim, ctor.dim_feedforward), nn.ReLU()] + hidden + [nn.Linear(ctor.dim_feedforward, 1)]))
    return self


# common part ------------------------------------------------------------------

def base_init(self, ctor):
    self.state_dim = ctor.state_dim
    self.candidate_dim = ctor.candidate_dim
    self.dim_model = ctor.dim_model
    self.num_stacked_layers = ctor.num_stacked_layers
    self.candidate_embedder = Embedder(ctor.candidate_dim, ctor.dim_model // 2)
    self.state_embedder = Embedder(ctor.state_dim, ctor.dim_model // 2)
    self.max_src_seq_len = ctor.max_src_seq_len
    self.max_tgt_seq_len = ctor.max_tgt_seq_len
    return self


def with_state(self, state, items, length):
    n = state.shape[0]
    s = self.state_embedder(state).repeat(1, length).reshape(n, length, -1)
    return torch.cat((s, self.candidate_embedder(items)), dim=2)


def prototype(self, ctor):
    size, length = self.max_src_seq_len, self.max_tgt_seq_len
    return rlt.PreprocessedRankingInput.from_tensors(
        state=torch.randn(1, self.state_dim), src_seq=torch.randn(1, size, self.candidate_dim), tgt_in_seq=torch.randn(1, length, self.candidate_dim),
        tgt_out_seq=torch.randn(1, length, self.candidate_dim), src_src_mask=torch.ones(1, size, size), tgt_tgt_mask=torch.ones(1, length, length),
        tgt_out_idx=torch.arange(length).reshape(1, -1) + 2)


# recurrent model: shown items in order, then the others, then an end marker --------

def gru_init(self, ctor):
    self.gru = nn.GRU(input_size=ctor.dim_model, hidden_size=ctor.dim_model, num_layers=ctor.num_stacked_layers, batch_first=True)
    self.end_of_seq_vec = nn.Parameter(torch.zeros(ctor.candidate_dim), requires_grad=True)
    self.proj = nn.Linear(2 * ctor.dim_model, 1)
    return self


def gru_input(self, ctor, input):
    n, length, _ = input.tgt_out_seq.float_features.shape
    size = input.src_seq.float_features.shape[1]
    left = torch.ones(n, size)
    left[torch.arange(n).repeat_interleave(torch.tensor(length)), input.tgt_out_idx.flatten() - 2] = 0
    others = torch.nonzero(left, as_tuple=True)[1].reshape(n, size - length)
    seq = torch.cat((input.tgt_out_seq.float_features, gather(input.src_seq.float_features, others), self.end_of_seq_vec.repeat(n, 1, 1)), dim=1)
    return rlt.PreprocessedRankingInput.from_tensors(
        state=input.state.float_features, src_seq=input.src_seq.float_features, src_src_mask=input.src_src_mask, tgt_in_seq=seq)


def gru_embed(self, ctor, state, tgt_in_seq):
    return with_state(self, state, tgt_in_seq, self.max_src_seq_len + 1)


def gru_reward(self, ctor, input):
    x = self._convert_seq2slate_to_reward_model_format(input)
    output, hn = self.gru(self.embed(x.state.float_features, x.tgt_in_seq.float_features))
    last = hn[-1]
    w = F.softmax(torch.bmm(output, last.unsqueeze(2) / torch.sqrt(torch.tensor(self.candidate_dim))).squeeze(2), dim=1)
    context = torch.bmm(w.unsqueeze(1), output).squeeze(1)
    return rlt.RewardNetworkOutput(predicted_reward=self.proj(torch.cat((last, context), dim=1)))


# transformer model: encode the candidates, decode the shown items in order ------------

def transformer_init(self, ctor):
    self.num_heads = ctor.num_heads
    self.dim_feedforward = ctor.dim_feedforward
    attn = MultiHeadedAttention(ctor.num_heads, ctor.dim_model)
    ff = PositionwiseFeedForward(ctor.dim_model, ctor.dim_feedforward)
    c = copy.deepcopy
    self.encoder = Encoder(EncoderLayer(ctor.dim_model, c(attn), c(ff)), ctor.num_stacked_layers)
    self.decoder = Decoder(DecoderLayer(ctor.dim_model, c(attn), c(attn), c(ff)), ctor.num_stacked_layers)
    self.positional_encoding_encoder = PositionalEncoding(ctor.dim_model)
    self.positional_encoding_decoder = PositionalEncoding(ctor.dim_model)
    self.proj = nn.Linear(ctor.dim_model, 1)
    self.decoder_start_vec = nn.Parameter(torch.zeros(ctor.candidate_dim), requires_grad=True)
    return self


def transformer_input(self, ctor, input):
    n, length, _ = input.tgt_out_seq.float_features.shape
    seq = torch.cat((self.decoder_start_vec.repeat(n, 1, 1), input.tgt_out_seq.float_features), dim=1)
    return rlt.PreprocessedRankingInput.from_tensors(
        state=input.state.float_features, src_seq=input.src_seq.float_features, src_src_mask=input.src_src_mask, tgt_in_seq=seq,
        tgt_tgt_mask=subsequent_mask(length + 1, next(self.parameters()).device))


def transformer_encode(self, ctor, state, src_seq, src_mask):
    n = src_seq.shape[0]
    s = self.state_embedder(state).repeat(1, self.max_src_seq_len).reshape(n, self.max_src_seq_len, -1)
    return self.encoder(self.positional_encoding_encoder(torch.cat((s, self.candidate_embedder(src_seq)), dim=2)), src_mask)


def transformer_decode(self, ctor, memory, state, tgt_src_mask, tgt_in_seq, tgt_tgt_mask, tgt_seq_len):
    n = tgt_in_seq.shape[0]
    s = self.state_embedder(state).repeat(1, tgt_seq_len).reshape(n, tgt_seq_len, -1)
    x = self.positional_encoding_decoder(torch.cat((s, self.candidate_embedder(tgt_in_seq)), dim=2))
    return self.decoder(x, memory, tgt_src_mask, tgt_tgt_mask)


def transformer_reward(self, ctor, input):
    x = self._convert_seq2slate_to_reward_model_format(input)
    memory = self.encode(x.state.float_features, x.src_seq.float_features, x.src_src_mask)
    n, length, _ = x.tgt_in_seq.float_features.shape
    out = self.decode(memory=memory, state=x.state.float_features, tgt_src_mask=torch.ones(n, length, self.max_src_seq_len),
                      tgt_in_seq=x.tgt_in_seq.float_features, tgt_tgt_mask=x.tgt_tgt_mask, tgt_seq_len=length)
    return rlt.RewardNetworkOutput(predicted_reward=self.proj(out[:, -1, :]))


# the traced form --------------------------------------------------------------------

def traced(self, ctor, state, src_seq, tgt_out_seq, src_src_mask, tgt_out_idx):
    return self.model(rlt.PreprocessedRankingInput(
        state=rlt.FeatureData(float_features=state), src_seq=rlt.FeatureData(float_features=src_seq), tgt_out_seq=rlt.FeatureData(float_features=tgt_out_seq),
        src_src_mask=src_src_mask, tgt_out_idx=tgt_out_idx)).predicted_reward


def traced_prototype(self, ctor, use_gpu):
    x = self.model.input_prototype()
    if use_gpu:
        x = x.cuda()
    return (x.state.float_features, x.src_seq.float_features, x.tgt_out_seq.float_features, x.src_src_mask, x.tgt_out_idx)


def glorot(self, ctor):
    for p in self.parameters():
        if p.dim() > 1:
            nn.init.xavier_uniform_(p)
