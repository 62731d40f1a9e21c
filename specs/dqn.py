"""Reference definitions: discrete-action DQN."""
import torch
import torch.nn.functional as F
from reagent.training.imitator_training import get_valid_actions_from_imitator
from specs.common import boosts, discount, masked_max, regression, use_override


def max_q(self, ctor, q_values, q_values_target, mask):
    return masked_max(q_values, q_values_target, mask, self.double_q_learning)


def max_q_single(self, ctor, q_values, mask):
    return masked_max(q_values, q_values, mask, self.double_q_learning)


def imitator_mask(imitator, input, drop_threshold):
    if isinstance(imitator, torch.nn.Module):
        p = F.softmax(imitator(input.float_features), dim=1)
    else:
        p = torch.tensor(imitator(input.float_features))
    best, _ = torch.max(p, dim=1, keepdim=True)
    return p / best >= drop_threshold


def train_step_gen(self, ctor, batch, batch_idx):
    rl = ctor.rl
    reward = batch.reward + torch.sum(batch.action * boosts(rl, ctor.actions), dim=1, keepdim=True)
    gamma_t = discount(self, rl.gamma, rl, reward, batch)
    with torch.no_grad():
        q_next = ctor.q_network(batch.next_state)
        q_next_target = ctor.q_network_target(batch.next_state)
    if use_override(self._maxq_learning, rl.maxq_learning):
        mask = batch.possible_next_actions_mask
        if ctor.bcq is not None:
            mask = mask * get_valid_actions_from_imitator(ctor.imitator, batch.next_state, ctor.bcq.drop_threshold)
    else:
        mask = batch.next_action
    next_v, _ = masked_max(q_next, q_next_target, mask, ctor.double_q_learning)
    target = reward + gamma_t * batch.not_terminal * next_v
    scores = ctor.q_network(batch.state)
    q_sa = torch.sum(scores * batch.action, dim=1, keepdim=True)
    yield regression(rl.q_network_loss, q_sa, target.detach())
    self.all_action_scores = scores.detach()
    yield from self._calculate_cpes(
        batch,
        batch.state,
        batch.next_state,
        scores.detach(),
        ctor.q_network(batch.next_state).detach(),
        torch.argmax(batch.action, dim=1, keepdim=True),
        gamma_t,
        batch.not_terminal,
    )
    yield self.soft_update_result()


def imitator_built(self, ctor):
    self.minibatch_size = ctor.minibatch_size
    self.minibatches_per_step = ctor.minibatches_per_step or 1
    self.imitator = ctor.imitator
    self.imitator_optimizer = ctor.optimizer.make_optimizer(ctor.imitator.parameters())
    return self


def imitator_accuracy(self, ctor, predictions, true_labels):
    return round(int((predictions == true_labels).sum()) / len(predictions), 3)


def imitate(self, ctor, training_batch, train=True):
    batch = training_batch.training_input
    scores = self.imitator(batch.state.float_features)
    truth = torch.max(batch.action, dim=1)[1]
    if train:
        torch.nn.CrossEntropyLoss()(scores, truth).backward()
        self._maybe_run_optimizer(self.imitator_optimizer, self.minibatches_per_step)
    return self._imitator_accuracy(torch.max(scores, dim=1)[1], truth)
