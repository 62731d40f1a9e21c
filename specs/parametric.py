"""Reference definitions: parametric DQN and SlateQ."""
import torch
import torch.nn.functional as F
from specs.common import discount, masked_max, own, regression, use_override


def train_step_gen(self, ctor, batch, batch_idx):
    rl = ctor.rl
    gamma_t = discount(self, rl.gamma, rl, batch.reward, batch)
    with torch.no_grad():
        if use_override(self._maxq_learning, rl.maxq_learning):
            n = batch.possible_next_actions.float_features.shape[0] // batch.possible_actions_mask.shape[0]
            tiled = batch.next_state.get_tiled_batch(n)
            next_v, _ = masked_max(
                ctor.q_network(tiled, batch.possible_next_actions),
                ctor.q_network_target(tiled, batch.possible_next_actions),
                batch.possible_next_actions_mask,
                ctor.double_q_learning,
            )
        else:
            next_v = ctor.q_network_target(batch.next_state, batch.next_action)
        target = batch.reward + gamma_t * batch.not_terminal * next_v
    yield own(regression(rl.q_network_loss, ctor.q_network(batch.state, batch.action), target), "q_network")
    real = batch.reward
    if batch.extras.metrics is not None:
        real = torch.cat((batch.reward, batch.extras.metrics), dim=1)
    est = ctor.reward_network(batch.state, batch.action)
    yield own(F.mse_loss(est.squeeze(-1), real.squeeze(-1)), "reward_network")
    yield self.soft_update_result()


def docs(state, action):
    return state.candidate_docs.select_slate(action)


def item_values(net, state, slate):
    b, n, _ = slate.float_features.shape
    return net(state.repeat_interleave(n, dim=0), slate.as_feature_data()).view(b, n)


def slate_q(self, ctor, batch, batch_idx):
    rl = ctor.rl
    reward = batch.reward
    if rl.maxq_learning:
        raise NotImplementedError()
    with torch.no_grad():
        terminal = ~batch.not_terminal.bool().squeeze(1)
        next_action = batch.next_action
        next_action[terminal] = 0
        next_docs = docs(batch.next_state, next_action)
        w = next_docs.value
        if ctor.single_selection:
            w = F.softmax(w, dim=1)
        next_v = torch.sum(item_values(ctor.q_network_target, batch.next_state, next_docs) * w, dim=1, keepdim=True)
        if not ctor.single_selection:
            next_v = next_v / reward.shape[1]
        target = reward + rl.gamma * next_v * batch.not_terminal
    q = item_values(ctor.q_network, batch.state, docs(batch.state, batch.action))
    if ctor.single_selection:
        target = target[batch.reward_mask]
        q = q[batch.reward_mask]
    yield own(F.mse_loss(q, target), "q_network")
    yield self.soft_update_result()
