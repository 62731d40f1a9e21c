"""Reference definitions: evaluation pages as inputs of the off-policy estimators."""
import torch
from reagent.evaluation.cpe import CpeEstimate, CpeEstimateSet, bootstrapped_std_error_of_mean
from reagent.evaluation.ope_adapter import OPEstimatorAdapter, SequentialOPEstimatorAdapter
from reagent.evaluation.weighted_sequential_doubly_robust_estimator import WeightedSequentialDoublyRobustEstimator
from reagent.ope.estimators.contextual_bandits_estimators import (
    BanditsEstimatorInput,
    DMEstimator,
    DoublyRobustEstimator,
    IPSEstimator,
    LogSample,
    ModelOutputs,
)
from reagent.ope.estimators.sequential_estimators import (
    DoublyRobustEstimator as SeqDR,
    MAGICEstimator,
    RLEstimatorInput,
    State,
    Transition,
)
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace


def bandit_log(edp, device=None):
    log = []
    for i in range(edp.model_rewards.shape[0]):
        a = torch.argmax(edp.action_mask[i]).item()
        if edp.action_mask[i][a] == 0.0:
            a = None
        p = torch.zeros(edp.model_propensities[i].shape, device=device)
        if a is not None:
            p[a] = edp.logged_propensities[i]
        log.append(
            LogSample(
                context=None if edp.contexts is None else edp.contexts[i],
                log_action=Action(a),
                log_reward=edp.logged_rewards[i],
                log_action_probabilities=ActionDistribution(p),
                tgt_action_probabilities=ActionDistribution(edp.model_propensities[i]),
                tgt_action=Action(a),
                model_outputs=ModelOutputs(
                    tgt_reward_from_log_action=edp.model_rewards_for_logged_action[i],
                    tgt_rewards=edp.model_rewards[i],
                ),
            )
        )
    return BanditsEstimatorInput(ActionSpace(edp.action_mask.shape[1]), log, True)


def bandit_result(result):
    return CpeEstimate(
        raw=result.estimated_reward,
        normalized=result.estimated_reward_normalized,
        raw_std_error=result.estimated_reward_std_error,
        normalized_std_error=result.estimated_reward_normalized_std_error,
    )


def bandit_estimate(self, ctor, edp, **kwargs):
    return OPEstimatorAdapter.estimator_result_to_cpe_estimate(
        self._ope_estimator.evaluate(OPEstimatorAdapter.edp_to_contextual_bandit_log(edp), **kwargs)
    )


def page_policy(self, ctor, state):
    return self.model_propensities[state.value]


def page_action_value(self, ctor, state, action):
    return self.model_values[state.value][action].item()


def page_value(self, ctor, state):
    return torch.dot(self.model_values[state.value], self.target_propensities[state.value]).item()


def episodes(edp, gamma, device=None):
    cols = WeightedSequentialDoublyRobustEstimator.transform_to_equal_length_trajectories(
        edp.mdp_id,
        edp.action_mask.cpu().numpy(),
        edp.logged_rewards.cpu().numpy().flatten(),
        edp.logged_propensities.cpu().numpy().flatten(),
        edp.model_propensities.cpu().numpy(),
        edp.model_values.cpu().numpy(),
    )
    actions, rewards, logged, target, values = (torch.tensor(c, dtype=torch.double, device=device, requires_grad=True) for c in cols)
    n = logged.shape[0]
    length = logged.shape[1]
    log = []
    for e in range(n):
        steps = []
        for i in range(length):
            a = torch.argmax(actions[e, i]).item()
            if actions[e, i][a] != 0.0:
                steps.append(
                    Transition(
                        last_state=State((e, i)),
                        action=a,
                        action_prob=logged[e, i].item(),
                        state=State((e, i + 1)),
                        reward=rewards[e, i].item(),
                    )
                )
        log.append(steps)
    return RLEstimatorInput(
        gamma=gamma,
        log=log,
        target_policy=SequentialOPEstimatorAdapter.EDPSeqPolicy(actions.shape[2], target),
        value_function=SequentialOPEstimatorAdapter.EDPValueFunc(values, target),
        ground_truth=None,
        horizon=length,
    )


def sequential_result(estimator_results):
    est = torch.tensor([r.estimated_reward for r in estimator_results.results], dtype=torch.double)
    logged = torch.tensor([r.log_reward for r in estimator_results.results], dtype=torch.double)
    m = float(torch.mean(est).item())
    se = bootstrapped_std_error_of_mean(est)
    base = float(torch.mean(logged).item())
    if base < 1e-6:
        return CpeEstimate(raw=m, normalized=0.0, raw_std_error=se, normalized_std_error=0.0)
    return CpeEstimate(raw=m, normalized=m / base, raw_std_error=se, normalized_std_error=se / base)


def sequential_estimate(self, ctor, edp):
    return SequentialOPEstimatorAdapter.estimator_results_to_cpe_estimate(
        self.seq_ope_estimator.evaluate(SequentialOPEstimatorAdapter.edp_to_rl_input(edp, self.gamma, self._device))
    )


def evaluator_init(self, ctor):
    d = ctor.device
    self.ope_dm_estimator = OPEstimatorAdapter(DMEstimator(device=d))
    self.ope_ips_estimator = OPEstimatorAdapter(IPSEstimator(device=d))
    self.ope_dr_estimator = OPEstimatorAdapter(DoublyRobustEstimator(device=d))
    self.ope_seq_dr_estimator = SequentialOPEstimatorAdapter(SeqDR(device=d), ctor.gamma, device=d)
    self.ope_seq_weighted_dr_estimator = SequentialOPEstimatorAdapter(SeqDR(weighted=True, device=d), ctor.gamma, device=d)
    self.ope_seq_magic_estimator = SequentialOPEstimatorAdapter(MAGICEstimator(device=d), ctor.gamma)


def evaluator_score(self, ctor, metric_name, edp):
    return CpeEstimateSet(
        direct_method=self.ope_dm_estimator.estimate(edp),
        inverse_propensity=self.ope_ips_estimator.estimate(edp),
        doubly_robust=self.ope_dr_estimator.estimate(edp),
        sequential_doubly_robust=self.ope_seq_dr_estimator.estimate(edp),
        weighted_doubly_robust=self.ope_seq_weighted_dr_estimator.estimate(edp),
        magic=self.ope_seq_magic_estimator.estimate(edp),
    )


def page_policy_init(self, ctor):
    self.model_propensities = ctor.model_propensities
    self._action_space = ActionSpace(ctor.num_actions)


def page_values_init(self, ctor):
    self.model_values = ctor.model_values
    self.target_propensities = ctor.target_propensities


def bandit_init(self, ctor):
    self._ope_estimator = ctor.ope_estimator


def sequential_init(self, ctor):
    self.seq_ope_estimator = ctor.seq_ope_estimator
    self.gamma = ctor.gamma
    self._device = ctor.device
