"""Reference definitions: the Seq2Slate network (masks, decoding, sequence probabilities)."""
import copy
import math

import torch
import torch.nn as nn
import torch.nn.functional as F
import torch.nn.modules.transformer as transformer
from reagent import types as rlt
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch, attention, clones, mask_logits_by_idx, per_symbol_to_per_seq_probs, pytorch_decoder_mask
from reagent.models.seq2slate import DecoderLastLayerPytorch, DecoderPyTorch, Embedder, EncoderPyTorch, Generator, PositionalEncoding, Seq2SlateTransformerModel, Seq2SlateTransformerOutput, SublayerConnection
from reagent.torch_utils import gather




# masks ----------------------------------------------------------------------

def chosen(idx):
    # row t holds the symbols fed to the decoder up to and including step t
    n, length = idx.shape
    return torch.tril(idx.repeat(1, length).reshape(n, length, length), diagonal=0)


def masked(logits, tgt_in_idx):
    n, length = tgt_in_idx.shape
    logits[:, :, :2] = float("-inf")
    fed = torch.tril(tgt_in_idx.repeat(1, length).reshape(n, length, length), diagonal=0)
    return logits.scatter(2, fed, float("-inf"))


def decoder_masks(memory, tgt_in_idx, num_heads):
    n, size, _ = memory.shape
    length = tgt_in_idx.shape[1]
    fed = torch.tril(tgt_in_idx.repeat(1, length).reshape(n, length, length), diagonal=0)
    used = torch.zeros(n, length, size + 2, dtype=torch.bool).scatter(2, fed, 1)
    earlier = ~torch.triu(torch.ones(1, length, length, dtype=torch.bool), diagonal=1)
    return (earlier == 0).repeat(n * num_heads, 1, 1), used[:, :, 2:].repeat_interleave(num_heads, dim=0)


def padded_mask(tgt_in_idx):
    size = tgt_in_idx.size(-1)
    earlier = ~torch.triu(torch.ones(1, size, size, dtype=torch.bool), diagonal=1)
    return (tgt_in_idx != 0).unsqueeze(-2).type(torch.int8) & earlier


def seq_log_prob(per_symbol_log_probs, tgt_out_idx):
    return torch.gather(per_symbol_log_probs, 2, tgt_out_idx.unsqueeze(2)).squeeze(2).sum(dim=1, keepdim=True)


def seq_prob(per_symbol_probs, tgt_out_idx):
    each = torch.gather(per_symbol_probs, 2, tgt_out_idx.unsqueeze(2)).squeeze(2)
    return torch.clamp(torch.prod(each, dim=1, keepdim=True), min=1e-40)


def scaled_attention(query, key, value, mask, d_k):
    w = F.softmax((torch.matmul(query, key.transpose(-2, -1)) / math.sqrt(d_k)).masked_fill(mask == 0, float("-inf")), dim=3)
    return torch.matmul(w, value), w


def copies(module, n):
    return nn.ModuleList([copy.deepcopy(module) for _ in range(n)])


# parts ----------------------------------------------------------------------

def next_symbol(self, ctor, probs, greedy):
    last = probs[:, -1, :]
    if greedy:
        pick = torch.max(last, dim=1)[1]
    else:
        pick = torch.multinomial(last, num_samples=1, replacement=False)
    return pick.reshape(probs.shape[0], 1), last


def residual(self, ctor, x, sublayer):
    return x + sublayer(self.norm(x))


def encoder_stack(self, ctor, x, mask):
    for layer in self.layers:
        x = layer(x, mask)
    return self.norm(x)


def decoder_stack(self, ctor, x, memory, tgt_src_mask, tgt_tgt_mask):
    for layer in self.layers:
        x = layer(x, memory, tgt_src_mask, tgt_tgt_mask)
    return self.norm(x)


def encoder(self, ctor, src):
    return self.transformer_encoder(src.transpose(0, 1)).transpose(0, 1)


def encoder_init(self, ctor):
    layer = nn.TransformerEncoderLayer(d_model=ctor.dim_model, dim_feedforward=ctor.dim_feedforward, nhead=ctor.num_heads, dropout=0.0)
    self.transformer_encoder = nn.TransformerEncoder(layer, num_layers=ctor.num_layers)
    return self


def last_layer(self, ctor, tgt, memory, tgt_mask, memory_mask):
    x = self.norm1(tgt + self.dropout1(self.self_attn(tgt, tgt, tgt, attn_mask=tgt_mask)[0]))
    return self.multihead_attn(x, memory, memory, attn_mask=memory_mask)[1]


def decoder_init(self, ctor):
    self.layers = nn.ModuleList(
        [transformer.TransformerDecoderLayer(d_model=ctor.dim_model, nhead=ctor.num_heads, dim_feedforward=ctor.dim_feedforward, dropout=0.0)
         for _ in range(ctor.num_layers - 1)]
        + [DecoderLastLayerPytorch(d_model=ctor.dim_model, nhead=ctor.num_heads, dim_feedforward=ctor.dim_feedforward, dropout=0.0)])
    self.num_layers = ctor.num_layers
    return self


def decoder(self, ctor, tgt_embed, memory, tgt_src_mask, tgt_tgt_mask):
    n, length, _ = tgt_embed.shape
    memory = memory.transpose(0, 1)
    x = tgt_embed.transpose(0, 1)
    for layer in self.layers:
        x = layer(x, memory, tgt_mask=tgt_tgt_mask, memory_mask=tgt_src_mask)
    # padding and start symbols are never emitted
    return torch.cat((torch.zeros(n, length, 2), x), dim=2)


def multi_head(self, ctor, query, key, value, mask):
    if mask is not None:
        mask = mask.unsqueeze(1)
    n = query.size(0)

    def split(layer, x):
        return layer(x).view(n, -1, self.num_heads, self.d_k).transpose(1, 2)

    q, k, v = [split(l, x) for l, x in zip(self.linears, (query, key, value))]
    x = attention(q, k, v, mask, self.d_k)[0]
    return self.linears[-1](x.transpose(1, 2).contiguous().view(n, -1, self.num_heads * self.d_k))


def feed_forward(self, ctor, x):
    return self.net(x)


def embed(self, ctor, x):
    return self.linear(x) * math.sqrt(self.dim_out)


def embed_init(self, ctor):
    self.dim_in = ctor.dim_in
    self.dim_out = ctor.dim_out
    self.linear = nn.Linear(ctor.dim_in, ctor.dim_out)
    return self


def with_position(self, ctor, x):
    n, length, _ = x.shape
    pos = torch.arange(0, length).unsqueeze(0).repeat(n, 1).reshape(n, length, 1)
    return self.activation(self.pos_embed(torch.cat((x, pos), dim=2)))


def with_position_init(self, ctor):
    self.pos_embed = nn.Linear(ctor.dim_model + 1, ctor.dim_model)
    self.activation = nn.ReLU()
    return self


def baseline(self, ctor, input):
    return self.mlp(input.state.float_features)


# the model --------------------------------------------------------------------

def model_init(self, ctor):
    self.max_tgt_seq_len = ctor.max_tgt_seq_len
    self.num_heads = ctor.num_heads
    self.output_arch = ctor.output_arch
    self._DECODER_START_SYMBOL = 1
    self._PADDING_SYMBOL = 0
    self._RANK_MODE = "rank"
    self._PER_SYMBOL_LOG_PROB_DIST_MODE = "per_symbol_log_prob_dist"
    self._PER_SEQ_LOG_PROB_MODE = "per_sequence_log_prob"
    self._DECODE_ONE_STEP_MODE = "decode_one_step"
    self._ENCODER_SCORE_MODE = "encoder_score_mode"
    self.encoder = EncoderPyTorch(ctor.dim_model, ctor.num_heads, ctor.dim_feedforward, ctor.num_stacked_layers)
    self.encoder_scorer = nn.Linear(ctor.dim_model, 1)
    self.generator = Generator()
    self.decoder = DecoderPyTorch(ctor.dim_model, ctor.num_heads, ctor.dim_feedforward, ctor.num_stacked_layers)
    self.positional_encoding_decoder = PositionalEncoding(ctor.dim_model)
    part = ctor.dim_model // 2 if ctor.state_embed_dim is None else ctor.state_embed_dim
    self.state_embedder = Embedder(ctor.state_dim, part)
    self.candidate_embedder = Embedder(ctor.candidate_dim, ctor.dim_model - part)
    return self


def dispatch(self, ctor, mode, state, src_seq, tgt_in_idx, tgt_out_idx, tgt_in_seq, tgt_seq_len, greedy):
    if mode == "rank":
        return self._rank(state=state, src_seq=src_seq, tgt_seq_len=self.max_tgt_seq_len if tgt_seq_len is None else tgt_seq_len, greedy=greedy)
    if mode == "per_sequence_log_prob" or mode == "per_symbol_log_prob_dist":
        return self._log_probs(state=state, src_seq=src_seq, tgt_in_seq=tgt_in_seq, tgt_in_idx=tgt_in_idx, tgt_out_idx=tgt_out_idx, mode=mode)
    if mode == "encoder_score_mode":
        return self.encoder_output_to_scores(state=state, src_seq=src_seq, tgt_out_idx=tgt_out_idx)
    raise NotImplementedError()


def encoded(self, ctor, state, src_seq):
    n, size, _ = src_seq.shape
    s = self.state_embedder(state).repeat(1, size).reshape(n, size, -1)
    return self.encoder(torch.cat((s, self.candidate_embedder(src_seq)), dim=2))


def step_probs(self, ctor, memory, state, tgt_in_idx, tgt_in_seq):
    n, size, _ = memory.shape
    length = tgt_in_idx.shape[1]
    if self.output_arch == Seq2SlateOutputArch.FRECHET_SORT:
        scores = self.encoder_scorer(memory).squeeze(dim=2)
        logits = torch.zeros(n, length, size + 2)
        logits[:, :, :2] = float("-inf")
        logits[:, :, 2:] = scores.repeat(1, length).reshape(n, length, size)
        return torch.softmax(mask_logits_by_idx(logits, tgt_in_idx), dim=2)
    if self.output_arch == Seq2SlateOutputArch.AUTOREGRESSIVE:
        s = self.state_embedder(state).repeat(1, length).reshape(n, length, -1)
        x = self.positional_encoding_decoder(torch.cat((s, self.candidate_embedder(tgt_in_seq)), dim=2))
        among, over = pytorch_decoder_mask(memory, tgt_in_idx, self.num_heads)
        return self.decoder(x, memory, over, among)
    raise NotImplementedError()


def ranked(self, ctor, state, src_seq, tgt_seq_len, greedy):
    n, size, dim = src_seq.shape
    table = torch.zeros(n, size + 2, dim)
    table[:, 2:, :] = src_seq
    memory = self.encode(state, src_seq)
    steps = torch.zeros(n, tgt_seq_len, size + 2)
    none = self._OUTPUT_PLACEHOLDER
    if self.output_arch == Seq2SlateOutputArch.ENCODER_SCORE:
        order = torch.argsort(self.encoder_scorer(memory).squeeze(dim=2), dim=1, descending=True)[:, :tgt_seq_len] + 2
        whole = torch.zeros(n, 1)
        whole[:, :] = 1.0
        return Seq2SlateTransformerOutput(
            ranked_per_symbol_probs=steps.scatter(2, order.unsqueeze(2), 1.0), ranked_per_seq_probs=whole, ranked_tgt_out_idx=order,
            per_symbol_log_probs=none, per_seq_log_probs=none, encoder_scores=none)
    fed = torch.ones(n, 1).fill_(self._DECODER_START_SYMBOL).long()
    for t in range(tgt_seq_len):
        probs = self.decode(memory=memory, state=state, tgt_in_idx=fed, tgt_in_seq=gather(table, fed))
        pick, last = self.generator(probs, greedy)
        steps[:, t, :] = last
        fed = torch.cat([fed, pick], dim=1)
    order = fed[:, 1:]
    return Seq2SlateTransformerOutput(
        ranked_per_symbol_probs=steps, ranked_per_seq_probs=per_symbol_to_per_seq_probs(steps, order), ranked_tgt_out_idx=order,
        per_symbol_log_probs=none, per_seq_log_probs=none, encoder_scores=none)


def scored(self, ctor, state, src_seq, tgt_in_seq, tgt_in_idx, tgt_out_idx, mode):
    probs = self.decode(memory=self.encode(state, src_seq), state=state, tgt_in_idx=tgt_in_idx, tgt_in_seq=tgt_in_seq)
    per_symbol = None
    per_seq = None
    if mode == self._PER_SYMBOL_LOG_PROB_DIST_MODE:
        per_symbol = torch.log(torch.clamp(probs, min=1e-40))
    else:
        per_seq = torch.log(per_symbol_to_per_seq_probs(probs, tgt_out_idx))
    return Seq2SlateTransformerOutput(
        ranked_per_symbol_probs=None, ranked_per_seq_probs=None, ranked_tgt_out_idx=None, per_symbol_log_probs=per_symbol, per_seq_log_probs=per_seq,
        encoder_scores=None)


def slate_scores(self, ctor, state, src_seq, tgt_out_idx):
    # one score per slate position, for every slate (also when there is only one)
    x = gather(self.encode(state, src_seq), tgt_out_idx - 2)
    return Seq2SlateTransformerOutput(
        ranked_per_symbol_probs=None, ranked_per_seq_probs=None, ranked_tgt_out_idx=None, per_symbol_log_probs=None, per_seq_log_probs=None,
        encoder_scores=self.encoder_scorer(x).squeeze(dim=2))


# the wrapper --------------------------------------------------------------------

def net(self, input, mode, tgt_seq_len, greedy):
    if mode == Seq2SlateMode.RANK_MODE:
        r = self.seq2slate(mode=mode.value, state=input.state.float_features, src_seq=input.src_seq.float_features, tgt_seq_len=tgt_seq_len, greedy=greedy)
        return rlt.RankingOutput(ranked_per_symbol_probs=r.ranked_per_symbol_probs, ranked_per_seq_probs=r.ranked_per_seq_probs,
                                 ranked_tgt_out_idx=r.ranked_tgt_out_idx)
    if mode == Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE or mode == Seq2SlateMode.PER_SEQ_LOG_PROB_MODE:
        r = self.seq2slate(mode=mode.value, state=input.state.float_features, src_seq=input.src_seq.float_features,
                           tgt_in_seq=input.tgt_in_seq.float_features, tgt_in_idx=input.tgt_in_idx, tgt_out_idx=input.tgt_out_idx)
        return rlt.RankingOutput(log_probs=r.per_symbol_log_probs if r.per_symbol_log_probs is not None else r.per_seq_log_probs)
    if mode == Seq2SlateMode.ENCODER_SCORE_MODE:
        r = self.seq2slate(mode=mode.value, state=input.state.float_features, src_seq=input.src_seq.float_features, tgt_out_idx=input.tgt_out_idx)
        return rlt.RankingOutput(encoder_scores=r.encoder_scores)
    raise NotImplementedError()


def built(self):
    return Seq2SlateTransformerModel(
        state_dim=self.state_dim, candidate_dim=self.candidate_dim, num_stacked_layers=self.num_stacked_layers, num_heads=self.num_heads,
        dim_model=self.dim_model, dim_feedforward=self.dim_feedforward, max_src_seq_len=self.max_src_seq_len, max_tgt_seq_len=self.max_tgt_seq_len,
        output_arch=self.output_arch, temperature=self.temperature, state_embed_dim=self.state_embed_dim)


def parallel(self, ctor, input, mode, tgt_seq_len, greedy):
    return self.seq2slate_net(input, mode, tgt_seq_len, greedy)
