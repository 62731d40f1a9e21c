"""Slate reward models: the reward of a slate is predicted from its state, its candidates and the items shown, in the order shown."""
S = "reagent.models.seq2slate."
R = "reagent.models.seq2slate_reward."
G = R + "Seq2SlateGRURewardNet."
T = R + "Seq2SlateTransformerRewardNet."
J = R + "Seq2SlateRewardNetJITWrapper."


def run(cx):
    cx.same(S + "SublayerConnection.__init__", "slate_reward.residual_init", "attrs:norm")
    cx.same(S + "Encoder.__init__", "slate_reward.encoder_init", "attrs:layers,norm")
    cx.same(S + "Decoder.__init__", "slate_reward.decoder_init", "attrs:layers,norm")
    cx.same(S + "EncoderLayer.__init__", "slate_reward.encoder_layer_init", "attrs:self_attn,feed_forward,sublayer,dim_model")
    cx.same(S + "DecoderLayer.__init__", "slate_reward.decoder_layer_init", "attrs:size,self_attn,src_attn,feed_forward,sublayer")
    cx.same(S + "EncoderLayer.forward", "slate_reward.encoder_layer", "ret", init=False)
    cx.same(S + "DecoderLayer.forward", "slate_reward.decoder_layer", "ret", init=False)
    cx.same(S + "MultiHeadedAttention.__init__", "slate_reward.heads_init", "attrs:d_k,num_heads,linears")
    cx.same(S + "PositionwiseFeedForward.__init__", "slate_reward.feed_forward_init", "attrs:net")
    cx.same(S + "BaselineNet.__init__", "slate_reward.baseline_init", "attrs:mlp")
    cx.same(R + "Seq2SlateRewardNetBase.__init__", "slate_reward.base_init",
            "attrs:state_dim,candidate_dim,dim_model,num_stacked_layers,candidate_embedder,state_embedder,max_src_seq_len,max_tgt_seq_len")
    cx.same(R + "Seq2SlateRewardNetBase.input_prototype", "slate_reward.prototype", "ret", init=False)
    conv = {"_convert_seq2slate_to_reward_model_format", "embed", "encode", "decode", "gather", "subsequent_mask"}
    cx.same(G + "__init__", "slate_reward.gru_init", "attrs:gru,end_of_seq_vec,proj", opaque={"_init_params"})
    cx.same(G + "_convert_seq2slate_to_reward_model_format", "slate_reward.gru_input", "ret", init=False, opaque={"gather"})
    cx.same(G + "embed", "slate_reward.gru_embed", "ret", init=False)
    cx.same(G + "forward", "slate_reward.gru_reward", "ret", init=False, opaque=conv)
    cx.same(T + "__init__", "slate_reward.transformer_init",
            "attrs:num_heads,dim_feedforward,encoder,decoder,positional_encoding_encoder,positional_encoding_decoder,proj,decoder_start_vec", opaque={"_init_params"})
    cx.same(T + "_convert_seq2slate_to_reward_model_format", "slate_reward.transformer_input", "ret", init=False, opaque={"gather", "subsequent_mask"})
    cx.same(T + "encode", "slate_reward.transformer_encode", "ret", init=False)
    cx.same(T + "decode", "slate_reward.transformer_decode", "ret", init=False)
    cx.same(T + "forward", "slate_reward.transformer_reward", "ret", init=False, opaque=conv)
    cx.same(J + "forward", "slate_reward.traced", "ret")
    cx.same(J + "input_prototype", "slate_reward.traced_prototype", "ret", init=False, opaque={"input_prototype"})
    cx.same(R + "Seq2SlateRewardNetBase._init_params", "slate_reward.glorot", "calls:xavier_uniform_", init=False)
