"""P25: evaluation pages"""
import copy
import math

import numpy as np
import torch

from reagent import types as rlt
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.torch_utils import masked_softmax


def dispatch(self, tdb, trainer, reward_network):
    if isinstance(tdb, rlt.DiscreteDqnInput):
        return EvaluationDataPage.create_from_tensors_dqn(
            trainer, tdb.extras.mdp_id, tdb.extras.sequence_number, tdb.state, tdb.action, tdb.extras.action_probability,
            tdb.reward, tdb.possible_actions_mask, metrics=tdb.extras.metrics)
    if isinstance(tdb, rlt.ParametricDqnInput):
        return EvaluationDataPage.create_from_tensors_parametric_dqn(
            trainer, tdb.extras.mdp_id, tdb.extras.sequence_number, tdb.state, tdb.action, tdb.extras.action_probability,
            tdb.reward, tdb.possible_actions_mask, tdb.possible_actions, tdb.extras.max_num_actions, metrics=tdb.extras.metrics)
    raise NotImplementedError


def discrete(self, trainer, mdp_ids, sequence_numbers, states, actions, propensities, rewards, possible_actions_mask, metrics):
    n = trainer.num_actions
    logged = actions.float()
    q = trainer.get_detached_q_values(states)[0].detach()
    cpe = trainer.q_network_cpe(states).detach()
    predicted = trainer.reward_network(states).detach()
    model_values = cpe[:, 0:n]
    model_rewards = predicted[:, 0:n]
    model_metrics = predicted[:, n:]
    count = model_metrics.shape[1] // n
    if count == 0:
        metric_values = None
        logged_metric = None
        logged_metric_value = None
    else:
        metric_values = cpe[:, n:]
        logged_metric = torch.cat(
            [torch.sum(model_metrics[:, k * n : (k + 1) * n] * logged, dim=1, keepdim=True) for k in range(count)], dim=1)
        logged_metric_value = torch.cat(
            [torch.sum(metric_values[:, k * n : (k + 1) * n] * logged, dim=1, keepdim=True) for k in range(count)], dim=1)
    return EvaluationDataPage(
        mdp_id=mdp_ids,
        sequence_number=sequence_numbers,
        logged_propensities=propensities,
        logged_rewards=trainer.boost_rewards(rewards, actions).detach(),
        action_mask=logged,
        model_rewards=model_rewards,
        model_rewards_for_logged_action=torch.sum(model_rewards * logged, dim=1, keepdim=True),
        model_values=model_values,
        model_values_for_logged_action=torch.sum(model_values * logged, dim=1, keepdim=True),
        model_metrics_values=metric_values,
        model_metrics_values_for_logged_action=logged_metric_value,
        model_propensities=masked_softmax(q, possible_actions_mask, trainer.rl_temperature),
        logged_metrics=metrics,
        model_metrics=model_metrics,
        model_metrics_for_logged_action=logged_metric,
        logged_values=None,
        logged_metrics_values=None,
        possible_actions_mask=possible_actions_mask,
        optimal_q_values=q,
        eval_action_idxs=trainer.get_max_q_values(q, possible_actions_mask)[1].detach(),
    )


def parametric(self, trainer, mdp_ids, sequence_numbers, states, actions, propensities, rewards, possible_actions_mask,
               possible_actions, max_num_actions, metrics):
    tiled = states.float_features.repeat(1, max_num_actions).reshape(-1, states.float_features.shape[1])
    tiled = rlt.FeatureData(tiled)
    shape = possible_actions_mask.shape
    rows = shape[0]
    values = trainer.q_network(tiled, possible_actions).detach().reshape(shape)
    q = trainer.get_detached_q_values(tiled, possible_actions)[0].detach().reshape(shape)
    predicted = trainer.reward_network(tiled, possible_actions).detach()
    metric = predicted[:, 1:]
    count = metric.shape[1]
    metric_values = None
    if count > 0:
        metric_values = values.repeat(1, count)
    width = possible_actions.float_features.shape[1]
    same = torch.all(possible_actions.float_features.view(-1, max_num_actions, width) == actions.float_features.unsqueeze(dim=1), dim=2)
    return EvaluationDataPage(
        mdp_id=mdp_ids,
        sequence_number=sequence_numbers,
        logged_propensities=propensities,
        logged_rewards=rewards,
        action_mask=same.float(),
        model_rewards=predicted[:, :1].reshape(shape),
        model_rewards_for_logged_action=trainer.reward_network(states, actions).detach()[:, :1],
        model_values=values,
        model_values_for_logged_action=trainer.q_network(states, actions).detach(),
        model_metrics_values=metric_values,
        model_metrics_values_for_logged_action=None,
        model_propensities=masked_softmax(q, possible_actions_mask, trainer.rl_temperature),
        logged_metrics=metrics,
        model_metrics=metric.reshape(*shape, count).transpose(1, 2).reshape(rows, -1),
        model_metrics_for_logged_action=None,
        logged_values=None,
        logged_metrics_values=None,
        possible_actions_mask=possible_actions_mask,
        optimal_q_values=q,
        eval_action_idxs=None,
    )


def slate(self, seq2slate_net, reward_network, training_input, eval_greedy, mdp_ids, sequence_numbers):
    batch_size, tgt_seq_len, candidate_dim = training_input.tgt_out_seq.float_features.shape
    ranked = seq2slate_net(training_input, Seq2SlateMode.RANK_MODE, greedy=True).ranked_tgt_out_idx.detach()
    if eval_greedy:
        propensities = torch.ones(batch_size, 1)
        mask = torch.all(training_input.tgt_out_idx == ranked, dim=1, keepdim=True).float()
    else:
        propensities = torch.exp(seq2slate_net(training_input, Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs.detach())
        mask = torch.ones(batch_size, 1)
    state = training_input.state.float_features
    candidates = training_input.src_seq.float_features
    order = candidates[torch.arange(batch_size).repeat_interleave(tgt_seq_len), ranked.flatten() - 2]
    order = order.reshape(batch_size, tgt_seq_len, candidate_dim)
    return EvaluationDataPage(
        mdp_id=mdp_ids,
        sequence_number=sequence_numbers,
        model_propensities=propensities,
        model_rewards=reward_network(state, candidates, order, training_input.src_src_mask, ranked).detach().reshape(-1, 1),
        action_mask=mask,
        logged_rewards=training_input.slate_reward.reshape(-1, 1),
        model_rewards_for_logged_action=reward_network(
            state, candidates, training_input.tgt_out_seq.float_features, training_input.src_src_mask,
            training_input.tgt_out_idx).detach().reshape(-1, 1),
        logged_propensities=training_input.tgt_out_probs.reshape(-1, 1),
    )


def append(self, edp):
    out = {}
    for x in EvaluationDataPage._fields:
        mine = getattr(self, x)
        theirs = getattr(edp, x)
        if theirs is None:
            out[x] = None
        elif isinstance(mine, torch.Tensor):
            out[x] = torch.cat((mine, theirs), dim=0)
        elif isinstance(mine, np.ndarray):
            out[x] = np.concatenate((mine, theirs), axis=0)
        else:
            raise Exception("type")
    return EvaluationDataPage(**out)


def sort(self):
    keys = [(mdp, int(step), i) for i, (mdp, step) in enumerate(zip(self.mdp_id, self.sequence_number))]
    order = [i for _, _, i in sorted(keys)]
    out = {}
    for x in EvaluationDataPage._fields:
        t = getattr(self, x)
        out[x] = t[order] if t is not None else None
    return EvaluationDataPage(**out)


def values(self, gamma):
    m = None
    if self.logged_metrics is not None:
        m = EvaluationDataPage.compute_values_for_mdps(self.logged_metrics, self.mdp_id, self.sequence_number, gamma)
    return self._replace(
        logged_values=EvaluationDataPage.compute_values_for_mdps(self.logged_rewards, self.mdp_id, self.sequence_number, gamma),
        logged_metrics_values=m)


def returns(rewards, mdp_ids, sequence_numbers, gamma):
    values = rewards.clone()
    for x in range(len(values) - 2, -1, -1):
        if mdp_ids[x] == mdp_ids[x + 1]:
            values[x] += values[x + 1] * math.pow(gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0]))
    return values


def metric(self, i, num_actions):
    reward = self.model_rewards_for_logged_action
    value = self.model_values_for_logged_action
    if self.model_metrics_for_logged_action is not None:
        reward = self.model_metrics_for_logged_action[:, i : i + 1]
    if self.model_metrics_values_for_logged_action is not None:
        value = self.model_metrics_values_for_logged_action[:, i : i + 1]
    own = slice(i * num_actions, (i + 1) * num_actions)
    return self._replace(
        logged_rewards=self.logged_metrics[:, i : i + 1],
        logged_values=self.logged_metrics_values[:, i : i + 1],
        model_rewards=self.model_metrics[:, own],
        model_values=self.model_metrics_values[:, own],
        model_rewards_for_logged_action=reward,
        model_values_for_logged_action=value,
        logged_metrics=None,
        logged_metrics_values=None,
        model_metrics=None,
        model_metrics_values=None,
    )


# ---- evaluators ----
import torch.nn.functional as F
from sklearn.metrics import average_precision_score, dcg_score, ndcg_score, roc_auc_score
from reagent.training.world_model.seq2reward_trainer import get_Q


def listwise(self, ctor, eval_tdp):
    truth = eval_tdp.position_reward
    scores = self.seq2slate_net(eval_tdp, mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores.detach()
    loss = self.kl_loss(self.log_softmax(scores), truth).item()
    if not self.calc_cpe:
        self.notify_observers(cross_entropy_loss=loss)
        return
    out = self.seq2slate_net(eval_tdp, mode=Seq2SlateMode.RANK_MODE, greedy=True)
    ranked = (out.ranked_tgt_out_idx.detach() - 2).cpu().numpy()
    logged = (eval_tdp.tgt_out_idx - 2).cpu().numpy()
    n = self.slate_size
    bar = np.arange(n, 0, -1)
    dcg = []
    ndcg = []
    ap = []
    auc = []
    base_dcg = []
    base_ndcg = []
    base_ap = []
    base_auc = []
    for i in range(truth.shape[0]):
        hits = truth[i].bool()
        if torch.any(hits) and not torch.all(hits):
            ours = np.zeros(n)
            ours[ranked[i]] = bar
            labels = np.zeros(n)
            labels[logged[i]] = truth[i].cpu().numpy()
            base = np.zeros(n)
            base[logged[i]] = bar
            ap.append(average_precision_score(labels, ours))
            auc.append(roc_auc_score(labels, ours))
            base_ap.append(average_precision_score(labels, base))
            base_auc.append(roc_auc_score(labels, base))
            one = np.expand_dims(labels, axis=0)
            dcg.append(dcg_score(one, np.expand_dims(ours, axis=0)))
            ndcg.append(ndcg_score(one, np.expand_dims(ours, axis=0)))
            base_dcg.append(dcg_score(one, np.expand_dims(base, axis=0)))
            base_ndcg.append(ndcg_score(one, np.expand_dims(base, axis=0)))
    self.notify_observers(
        cross_entropy_loss=loss,
        dcg=torch.mean(torch.tensor(dcg)).reshape(1),
        ndcg=torch.mean(torch.tensor(ndcg)).reshape(1),
        mean_ap=torch.mean(torch.tensor(ap)).reshape(1),
        auc=torch.mean(torch.tensor(auc)).reshape(1),
        base_dcg=torch.mean(torch.tensor(base_dcg)).reshape(1),
        base_ndcg=torch.mean(torch.tensor(base_ndcg)).reshape(1),
        base_map=torch.mean(torch.tensor(base_ap)).reshape(1),
        base_auc=torch.mean(torch.tensor(base_auc)).reshape(1),
    )


def listwise_init(self, ctor):
    self.seq2slate_net = ctor.seq2slate_net
    self.slate_size = ctor.slate_size
    self.calc_cpe = ctor.calc_cpe
    self.log_softmax = torch.nn.LogSoftmax(dim=1)
    self.kl_loss = torch.nn.KLDivLoss(reduction="batchmean")


def gradient(self, ctor, eval_tdp):
    net = self.trainer.seq2slate_net
    logged = torch.exp(net(eval_tdp, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs.detach().flatten())
    if self.trainer.baseline_net:
        b = self.trainer.baseline_net(eval_tdp).detach()
        loss = F.mse_loss(b, eval_tdp.slate_reward).reshape(1)
    else:
        b = torch.zeros_like(eval_tdp.slate_reward)
        loss = torch.tensor([0.0]).reshape(1)
    ranked = net(eval_tdp, Seq2SlateMode.RANK_MODE, greedy=True).ranked_per_seq_probs.detach()
    if not self.calc_cpe:
        return
    g = EvaluationDataPage.create_from_tensors_seq2slate(net, self.reward_network, eval_tdp, eval_greedy=True)
    ng = EvaluationDataPage.create_from_tensors_seq2slate(net, self.reward_network, eval_tdp, eval_greedy=False)
    self.eval_data_pages_g = g if self.eval_data_pages_g is None else self.eval_data_pages_g.append(g)
    self.eval_data_pages_ng = ng if self.eval_data_pages_ng is None else self.eval_data_pages_ng.append(ng)
    self.notify_observers(
        eval_baseline_loss=loss,
        eval_advantages=(eval_tdp.slate_reward - b).flatten(),
        logged_slate_rank_probs=logged,
        ranked_slate_rank_probs=ranked,
    )


def gradient_end(self, ctor):
    self.notify_observers(eval_data_pages_g=self.eval_data_pages_g, eval_data_pages_ng=self.eval_data_pages_ng)
    self.eval_data_pages_g = None
    self.eval_data_pages_ng = None


def gradient_init(self, ctor):
    self.trainer = ctor.trainer
    self.calc_cpe = ctor.calc_cpe
    self.reward_network = ctor.reward_network
    self.eval_data_pages_g = None
    self.eval_data_pages_ng = None


def reward_net(self, ctor, eval_tdp):
    if isinstance(eval_tdp, rlt.PreprocessedRankingInput):
        reward = eval_tdp.slate_reward
    else:
        reward = eval_tdp.reward
    predicted = self.trainer.reward_net(eval_tdp).predicted_reward
    self.loss = self.loss + [self.trainer.loss_fn(predicted, reward).flatten().detach()]
    self.rewards = self.rewards + [reward.flatten().detach()]
    self.pred_rewards = self.pred_rewards + [predicted.flatten().detach()]


def reward_net_end(self, ctor):
    mean = np.mean(self.loss)
    out = {"loss": mean, "rewards": torch.cat(self.rewards), "pred_rewards": torch.cat(self.pred_rewards)}
    self.loss = []
    self.rewards = []
    self.pred_rewards = []
    if mean < self.best_model_loss:
        self.best_model_loss = mean
        self.best_model = copy.deepcopy(self.trainer.reward_net)
    return out


def reward_net_init(self, ctor):
    self.trainer = ctor.trainer
    self.loss = []
    self.rewards = []
    self.pred_rewards = []
    self.best_model = None
    self.best_model_loss = 1e9


def plans(trainer, batch):
    q = get_Q(trainer.seq2reward_network, batch.state.float_features[0], trainer.all_permut).detach()
    counts = torch.bincount(torch.argmax(q, dim=1), minlength=len(trainer.params.action_names))
    return q.mean(0).tolist(), (counts.float() / torch.sum(counts)).tolist()


def seq2reward(self, ctor, eval_batch):
    mse, entropy = self.trainer.get_loss(eval_batch)
    q, share = plans(self.trainer, eval_batch)
    mse = mse.detach().item()
    entropy = entropy.detach().item()
    self.notify_observers(mse_loss=mse, step_entropy_loss=entropy, q_values=[q], action_distribution=[share])
    return mse, entropy, q, share


def compress(self, ctor, eval_batch):
    mse, acc = self.trainer.get_loss(eval_batch)
    q, share = plans(self.trainer, eval_batch)
    mse = mse.detach().item()
    acc = acc.detach().item()
    self.notify_observers(mse_loss=mse, q_values=[q], action_distribution=[share], accuracy=acc)
    return mse, q, share, acc


def seq2reward_init(self, ctor):
    self.trainer = ctor.trainer
    self.reward_net = ctor.trainer.seq2reward_network


def compress_init(self, ctor):
    self.trainer = ctor.trainer
    self.compress_model_network = ctor.trainer.compress_model_network


def crr_values(self, ctor, state):
    return self.q1_network(state), None


def crr_network(self, ctor):
    return self.q1_network


def gathered(self, ctor, outputs):
    page = None
    for batch in outputs:
        one = EvaluationDataPage.create_from_training_batch(batch, self)
        page = one if page is None else page.append(one)
    if page and page.mdp_id is not None:
        page = page.sort().compute_values(self.gamma)
    return page


def tested(self, ctor, outputs):
    page = self.gather_eval_data(outputs)
    if page and page.mdp_id is not None:
        self.reporter.log(cpe_details=self.evaluator.evaluate_post_training(page))


def test_step(self, ctor, batch, batch_idx):
    return batch
