"""Reference definitions: the generator training protocol."""
import pytorch_lightning as pl
import torch
from reagent.tensorboardX import SummaryWriterContext


def training_step(self, ctor, batch, batch_idx, optimizer_idx):
    if self._training_step_generator is None:
        if self._training_batch_type and isinstance(batch, dict):
            batch = self._training_batch_type.from_dict(batch)
        self._training_step_generator = self.train_step_gen(batch, batch_idx)
    ret = next(self._training_step_generator)
    if optimizer_idx == self._num_optimizing_steps - 1:
        if not self._verified_steps:
            try:
                next(self._training_step_generator)
            except StopIteration:
                self._verified_steps = True
            if not self._verified_steps:
                raise RuntimeError()
        self._training_step_generator = None
        SummaryWriterContext.increase_global_step()
    return ret


def num_steps(self, ctor):
    return len(self.configure_optimizers())


def epoch_end(self, ctor, outputs):
    self.reporter.flush(self.current_epoch)
    if self.current_epoch == self._next_stopping_epoch.item():
        self.trainer.should_stop = True


def should_stop(self, ctor, outputs):
    if self.current_epoch == self._next_stopping_epoch.item():
        self.trainer.should_stop = True
    return self.trainer.should_stop


def increase(self, ctor, num_epochs):
    self._next_stopping_epoch += num_epochs
    self._cleanly_stopped[0] = False
    return self


def on_start(self, ctor, trainer, module):
    if module._cleanly_stopped.item():
        module.increase_next_stopping_epochs(ctor.num_epochs)


def set_reporter(self, ctor, reporter):
    self._reporter = pl.loggers.base.DummyExperiment() if reporter is None else reporter
    return self


def test_step(self, ctor, batch, batch_idx):
    return batch


def summary_writer(self, ctor):
    """writer of the current logger: the first TensorBoard logger of a collection, or the TensorBoard logger itself"""
    if self._summary_writer_logger is self.logger:
        return self._summary_writer
    self._summary_writer = None
    self._summary_writer_logger = self.logger
    if isinstance(self.logger, pl.loggers.base.LoggerCollection):
        for one in self.logger._logger_iterable:
            if isinstance(one, pl.loggers.tensorboard.TensorBoardLogger):
                self._summary_writer = one.experiment
                break
    elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
        self._summary_writer = self.logger.experiment
    return self._summary_writer


def init_state(self, ctor):
    self._training_step_generator = None
    self._verified_steps = False
    self._next_stopping_epoch = torch.tensor([-1]).int()
    self._cleanly_stopped = torch.ones(1).bool()


def soft_update_result(self, ctor):
    one = torch.ones(1, requires_grad=True)
    return one + one


def state_dict(self, ctor):
    return {c: getattr(self, c).state_dict() for c in self.warm_start_components()}


def load_state_dict(self, ctor, state_dict):
    for c in self.warm_start_components():
        getattr(self, c).load_state_dict(state_dict[c])


def optimize_every(self, ctor, optimizer, every):
    if self.minibatch % every != 0:
        return
    for group in optimizer.param_groups:
        for p in group["params"]:
            if p.grad is not None:
                p.grad /= every
    optimizer.step()
    optimizer.zero_grad()


def gamma(self, ctor):
    return self.rl_parameters.gamma


def tau(self, ctor):
    return self.rl_parameters.target_update_rate


def temperature(self, ctor):
    return self.rl_parameters.temperature


def multi_steps(self, ctor):
    return self.rl_parameters.multi_steps if self._multi_steps is None else self._multi_steps


def maxq(self, ctor):
    return self.rl_parameters.maxq_learning if self._maxq_learning is None else self._maxq_learning


def time_diff(self, ctor):
    if self._use_seq_num_diff_as_time_diff is None:
        return self.rl_parameters.use_seq_num_diff_as_time_diff
    return self._use_seq_num_diff_as_time_diff
