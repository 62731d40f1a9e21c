"""The generator training protocol, epoch stopping, and overridable learning settings."""
M = "reagent.training.reagent_lightning_module."
L = M + "ReAgentLightningModule."
X = "reagent.training.rl_trainer_pytorch."
D = "reagent.training.dqn_trainer.DQNTrainer"


def run(cx):
    kw = dict(opaque={"train_step_gen", "configure_optimizers", "increase_global_step", "_setup_input_type"})
    cx.same(L + "training_step", "loop.training_step", "retv", "attrs:_training_step_generator,_verified_steps", "raises=",
            "calls:next,train_step_gen,increase_global_step,from_dict", **kw)
    cx.same(L + "_num_optimizing_steps", "loop.num_steps", "ret", **kw)
    stop = lambda p: p.calls(kinds=("store",), label="requests to stop")
    cx.same(L + "training_epoch_end", "loop.epoch_end", "calls:flush", stop, **kw)
    cx.same(L + "increase_next_stopping_epochs", "loop.increase", "attrs:_next_stopping_epoch,_cleanly_stopped", **kw)
    cx.same(L + "set_reporter", "loop.set_reporter", "attrs:_reporter", "ret", **kw)
    cx.same(L + "summary_writer", "loop.summary_writer", "ret", "attrs:_summary_writer,_summary_writer_logger", "raises=", **kw)
    cx.same(L + "__init__", "loop.init_state", "attrs:_training_step_generator,_verified_steps,_next_stopping_epoch,_cleanly_stopped", **kw)
    cx.same(L + "soft_update_result", "loop.soft_update_result", "ret", **kw)
    cx.same(M + "StoppingEpochCallback.on_pretrain_routine_end", "loop.on_start", "calls:increase_next_stopping_epochs",
            opaque={"increase_next_stopping_epochs"})
    for nm, sp in (("gamma", "gamma"), ("tau", "tau"), ("rl_temperature", "temperature"), ("multi_steps", "multi_steps"),
                   ("maxq_learning", "maxq"), ("use_seq_num_diff_as_time_diff", "time_diff")):
        cx.same(X + "RLTrainerMixin." + nm, "loop." + sp, "ret")
    cx.same("reagent.training.dqn_trainer_base.DQNTrainerBaseLightning.test_step", "loop.test_step", "ret", cls=D)
    cx.same("reagent.training.trainer.Trainer.state_dict", "loop.state_dict", "ret")
    cx.same("reagent.training.trainer.Trainer.load_state_dict", "loop.load_state_dict", "calls:load_state_dict")
    cx.same(X + "RLTrainer._maybe_run_optimizer", "loop.optimize_every", "calls:step,zero_grad",
            lambda p: p.calls(kinds=("inplace",), label="in-place updates"))
