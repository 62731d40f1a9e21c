"""Seq2Slate: decoding never repeats a candidate and sequence probabilities are those of the emitted sequence."""
U = "reagent.model_utils.seq2slate_utils."
S = "reagent.models.seq2slate."
M = S + "Seq2SlateTransformerModel."


def run(cx):
    cx.same(U + "mask_logits_by_idx", "slate_decoder.masked", "ret")
    cx.same(U + "pytorch_decoder_mask", "slate_decoder.decoder_masks", "ret")
    cx.same(U + "subsequent_mask", "ranking.earlier_only", "ret")
    cx.same(U + "subsequent_and_padding_mask", "slate_decoder.padded_mask", "ret")
    cx.same(U + "per_symbol_to_per_seq_log_probs", "slate_decoder.seq_log_prob", "ret")
    cx.same(U + "per_symbol_to_per_seq_probs", "slate_decoder.seq_prob", "ret")
    cx.same(U + "attention", "slate_decoder.scaled_attention", "ret")
    cx.same(U + "clones", "slate_decoder.copies", "ret")
    cx.same("reagent.torch_utils.gather", "ranking.gathered", "ret")
    cx.same(S + "Generator.forward", "slate_decoder.next_symbol", "ret")
    cx.same(S + "SublayerConnection.forward", "slate_decoder.residual", "ret", init=False)
    cx.same(S + "Encoder.forward", "slate_decoder.encoder_stack", "ret", init=False)
    cx.same(S + "Decoder.forward", "slate_decoder.decoder_stack", "ret", init=False)
    cx.same(S + "EncoderPyTorch.__init__", "slate_decoder.encoder_init", "attrs:transformer_encoder")
    cx.same(S + "EncoderPyTorch.forward", "slate_decoder.encoder", "ret", init=False)
    cx.same(S + "DecoderLastLayerPytorch.forward", "slate_decoder.last_layer", "ret", init=False)
    cx.same(S + "DecoderPyTorch.__init__", "slate_decoder.decoder_init", "attrs:layers")
    cx.same(S + "DecoderPyTorch.forward", "slate_decoder.decoder", "ret", init=False)
    cx.same(S + "MultiHeadedAttention.forward", "slate_decoder.multi_head", "ret", init=False, opaque={"attention"})
    cx.same(S + "PositionwiseFeedForward.forward", "slate_decoder.feed_forward", "ret", init=False)
    cx.same(S + "Embedder.__init__", "slate_decoder.embed_init", "attrs:dim_in,dim_out,linear")
    cx.same(S + "Embedder.forward", "slate_decoder.embed", "ret", init=False)
    cx.same(S + "PositionalEncoding.__init__", "slate_decoder.with_position_init", "attrs:pos_embed,activation")
    cx.same(S + "PositionalEncoding.forward", "slate_decoder.with_position", "ret", init=False)
    cx.same(S + "BaselineNet.forward", "slate_decoder.baseline", "ret", init=False)
    cx.same(M + "__init__", "slate_decoder.model_init",
            "attrs:max_tgt_seq_len,num_heads,output_arch,_DECODER_START_SYMBOL,_PADDING_SYMBOL,_RANK_MODE,_PER_SYMBOL_LOG_PROB_DIST_MODE,"
            "_PER_SEQ_LOG_PROB_MODE,_ENCODER_SCORE_MODE,encoder,encoder_scorer,generator,decoder,positional_encoding_decoder,state_embedder,candidate_embedder")
    parts = {"_rank", "_log_probs", "encoder_output_to_scores", "encode", "decode", "gather", "mask_logits_by_idx", "pytorch_decoder_mask", "per_symbol_to_per_seq_probs"}
    own = lambda m: parts - {m}
    cx.same(M + "forward", "slate_decoder.dispatch", "ret", "raises=", opaque=parts)
    cx.same(M + "encode", "slate_decoder.encoded", "ret", init=False, opaque=own("encode"))
    cx.same(M + "decode", "slate_decoder.step_probs", "ret", "raises=", init=False, opaque=own("decode"))
    cx.same(M + "_rank", "slate_decoder.ranked", "ret", init=False, opaque=own("_rank"))
    cx.same(M + "_log_probs", "slate_decoder.scored", "ret", init=False, opaque=own("_log_probs"))
    cx.same(M + "encoder_output_to_scores", "slate_decoder.slate_scores", "ret", init=False, opaque=own("encoder_output_to_scores"))
    cx.same(S + "Seq2SlateNet.forward", "slate_decoder.net", "ret", "raises=")
    cx.same(S + "Seq2SlateTransformerNet._build_model", "slate_decoder.built", "ret")
    cx.same(S + "_DistributedSeq2SlateNet.forward", "slate_decoder.parallel", "ret", init=False)
