"""Ranking inputs: indices, sequences, masks and labels all describe the same logged slate; Frechet sorting."""
R = "reagent.types.PreprocessedRankingInput."
F = "reagent.samplers.frechet.FrechetSort."


def run(cx):
    cx.same(R + "from_input", "ranking.ranking_input", "ret", opaque={"gather"})
    cx.same(R + "from_tensors", "ranking.wrapped", "ret")
    cx.same(R + "__post_init__", "ranking.only_wrapped", "raises=")
    cx.same(R + "batch_size", "ranking.rows", "ret")
    cx.same("reagent.types.PreprocessedTrainingBatch.batch_size", "ranking.inner_rows", "ret")
    cx.same("reagent.torch_utils.gather", "ranking.gathered", "ret")
    cx.same("reagent.model_utils.seq2slate_utils.subsequent_mask", "ranking.earlier_only", "ret")
    cx.same(F + "__init__", "ranking.frechet_init", "attrs:shape,topk,upto,gumbel_noise,log_scores", "raises=")
    cx.same(F + "sample_action", "ranking.sampled", "ret", init=False, opaque={"log_prob"})
    cx.same(F + "log_prob", "ranking.ranking_log_prob", "ret", "raises=", init=False)
