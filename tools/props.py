"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/gen.py)."""

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)], technique
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique="value-graph equivalence with a reference definition (AST abstract evaluation)"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique))


TR = "reagent/training/"
INP = ["inputs", "configurations"]

p("P01", "Discrete DQN trains toward the Bellman target it is configured for",
  """For every batch and configuration, the discrete DQN loss is the configured regression loss between the Q-value of the
  logged action and reward (plus per-action boosts) + discount * not-terminal * next value, where the discount is gamma,
  gamma^time_diff or gamma^steps as configured. The next value is the target network's value of the greedy action (chosen by
  the online network under double Q-learning) among possible next actions, or of the logged next action under SARSA, with the
  imitator filter applied when batch-constrained. No gradient flows through the target.""",
  INP, "all batches, all combinations of double-Q, max-Q/SARSA, time-diff, multi-step, BCQ and reward-boost settings",
  "The trainer has only smoke/integration coverage; no stable test evaluates its loss for any batch, and the settings multiply to dozens of paths.",
  [TR + "dqn_trainer.py", TR + "dqn_trainer_base.py", TR + "rl_trainer_pytorch.py", TR + "imitator_training.py"],
  [("TD target and loss", TR + "dqn_trainer.py: train_step_gen"), ("masked (double) max", TR + "dqn_trainer_base.py: get_max_q_values_with_target"),
   ("imitator filter", TR + "imitator_training.py: get_valid_actions_from_imitator")])

p("P02", "Distributional DQN trains toward the projected or quantile Bellman target",
  """For every batch and configuration, the categorical (C51) trainer's loss is the cross-entropy between the predicted
  distribution of the logged action and the Bellman-shifted next-state target distribution, clamped to the support and projected
  so that each atom's mass is split between its two neighbouring support points. The quantile (QR-DQN) trainer's loss is the
  quantile-weighted Huber loss between every predicted quantile of the logged action and every Bellman-shifted quantile of the
  target network for the selected next action. Neither target carries gradient.""",
  INP, "all batches and double-Q / max-Q / multi-step / boost configurations",
  "Stable tests never run either loss; the projection's corner cases (atoms on integer positions, values outside the support) depend on data.",
  [TR + "c51_trainer.py", TR + "qrdqn_trainer.py"],
  [("C51 projection and loss", TR + "c51_trainer.py: train_step_gen"), ("quantile targets and Huber loss", TR + "qrdqn_trainer.py: train_step_gen, huber")])

p("P03", "Parametric DQN and SlateQ train toward their Bellman targets",
  """For every batch and configuration, the parametric DQN regresses the Q-value of the logged state-action pair onto reward +
  discount * not-terminal * next value, the next value being the masked (double) maximum over the tiled possible next actions or
  the logged next pair, and its reward model regresses onto the reward. SlateQ regresses the per-item Q-values of the logged
  slate onto reward + discount * the next slate's value, where the next slate value is the choice-probability weighted sum over
  the selected items, only at positions that received a response and with terminal next states contributing nothing.""",
  INP, "all batches and configurations of both trainers", "No stable test evaluates either loss.",
  [TR + "parametric_dqn_trainer.py", TR + "slate_q_trainer.py"],
  [("parametric target", TR + "parametric_dqn_trainer.py: train_step_gen"), ("slate target", TR + "slate_q_trainer.py: train_step_gen")])

p("P04", "Actor-critic trainers (SAC, TD3) optimise their stated objectives",
  """For every batch and configuration, SAC's critics regress onto reward + gamma * not-terminal * soft next value (minimum of the
  available critics minus temperature times log-probability), its actor minimises temperature * log-probability minus that
  minimum, its value network regresses onto the soft value, and its temperature moves with the entropy gap. TD3's critics regress
  onto reward + gamma * not-terminal * the minimum target-critic value at the clipped-noise target action, and its actor maximises
  the first critic only on delayed steps. Targets carry no gradient.""",
  INP, "all batches; with/without second critic, value network, KLD and alpha optimisation, delayed updates",
  "No stable test evaluates these losses; several are conditional on configuration or on the batch index.",
  [TR + "sac_trainer.py", TR + "td3_trainer.py"],
  [("SAC losses", TR + "sac_trainer.py: train_step_gen"), ("TD3 losses", TR + "td3_trainer.py: train_step_gen")])

p("P05", "Discrete CRR trains its critics and actor on the stated objectives",
  """For every batch and configuration, discrete CRR's critics regress the logged action's Q-value onto reward + discount *
  not-terminal * the target critics' (minimum) value of the next state under the target actor, and the actor minimises the
  negative log-probability of the logged action weighted by the clipped exponential of its advantage. The actor and its
  target update only on delayed steps, and no gradient flows through targets or weights.""",
  INP, "all batches, single/double critics, delayed policy updates", "No stable test evaluates these losses.",
  [TR + "discrete_crr_trainer.py"], [("losses", TR + "discrete_crr_trainer.py: train_step_gen, compute_target_q_values")])

p("P06", "Counterfactual-evaluation heads are trained on the right columns and targets",
  """Whenever counterfactual evaluation is enabled in training, the reward head regresses reward and every metric of the logged
  action onto the logged reward followed by the logged metrics, and each Q head regresses onto its own reward or metric plus the
  discounted not-terminal expected next value under the softmax policy over possible (or logged) next actions. Head k occupies
  columns k*A..(k+1)*A-1 for A actions.""",
  INP, "all batches, any number of actions and metrics, max-Q and SARSA", "The heads are only trained in integration runs that check nothing about values.",
  [TR + "dqn_trainer_base.py", TR + "rl_trainer_pytorch.py"], [("CPE losses", TR + "dqn_trainer_base.py: _calculate_cpes"), ("head offsets", TR + "dqn_trainer_base.py: _initialize_cpe")])

p("P07", "REINFORCE and PPO use the right returns, ratios and clipping",
  """For every trajectory batch, REINFORCE weights each action's log-probability (importance-corrected and clamped when configured
  off-policy) by the discounted return-to-go with optional baseline subtraction, reward centring and clipping; PPO maximises the
  minimum of the unclipped and epsilon-clipped ratio objectives with an entropy bonus, using the behaviour log-probability recorded
  at collection. Baselines regress onto the same returns and receive no policy gradient.""",
  INP, "all trajectories, all option combinations", "No stable test evaluates the losses.",
  [TR + "reinforce.py", TR + "ppo_trainer.py", TR + "utils.py"],
  [("REINFORCE loss", TR + "reinforce.py: train_step_gen"), ("PPO loss", TR + "ppo_trainer.py: _trajectory_to_losses"), ("returns", TR + "utils.py: discounted_returns, whiten")])

p("P08", "Soft target updates move each target toward its own source",
  """Every soft-update step sets each target parameter to (1-tau) * target + tau * its own source parameter, rejects mismatched
  parameter lists and tau outside [0, 1], and each trainer pairs every target network with the network it is a copy of, in the
  same order, including conditional heads.""",
  ["configurations", "inputs"], "all trainers, all optional-network configurations", "Tests never compare the pairing of parameter lists across configurations.",
  ["reagent/optimizer/soft_update.py", TR + "dqn_trainer.py", TR + "sac_trainer.py", TR + "td3_trainer.py", TR + "c51_trainer.py",
   TR + "qrdqn_trainer.py", TR + "parametric_dqn_trainer.py", TR + "slate_q_trainer.py", TR + "discrete_crr_trainer.py"],
  [("polyak step", "reagent/optimizer/soft_update.py: step"), ("target/source pairing", "configure_optimizers of each trainer")],
  "value-graph equivalence + pairing analysis of optimizer construction")

p("P09", "Each yielded loss is stepped by the optimizer of the networks it trains",
  """For every trainer and configuration, the number of losses produced per training step equals the number of optimizers declared,
  and the i-th loss has gradient with respect to the parameters the i-th optimizer owns; the soft-update placeholder is last and
  meets the soft-update optimizer.""",
  ["configurations"], "every combination of optional networks and flags in every generator-style trainer",
  "A mismatch silently trains the wrong network; tests exercise at most one configuration per trainer.",
  [TR + "dqn_trainer.py", TR + "c51_trainer.py", TR + "qrdqn_trainer.py", TR + "parametric_dqn_trainer.py", TR + "sac_trainer.py", TR + "td3_trainer.py",
   TR + "discrete_crr_trainer.py", TR + "slate_q_trainer.py", TR + "reinforce.py", TR + "ppo_trainer.py", TR + "cem_trainer.py"],
  [("yield/optimizer alignment", "train_step_gen and configure_optimizers of each trainer")],
  "gated yield/optimizer correspondence with gradient-reachability analysis")

p("P10", "The training loop pairs losses with optimizers and stops on epoch boundaries",
  """For every batch, the loop draws exactly one loss per optimizer in optimizer order, starts a fresh sequence when a new batch
  begins, and fails loudly when a sequence runs out early or, on the first completed batch, yields too many losses. Training stops cleanly once the requested number of
  epochs beyond the last saved stopping point has completed, and test batches pass through unchanged.""",
  ["histories", "configurations"], "all sequences of batches, optimizers and epochs", "Tests run short happy paths only.",
  [TR + "reagent_lightning_module.py", TR + "trainer.py", TR + "rl_trainer_pytorch.py"],
  [("generator protocol", TR + "reagent_lightning_module.py: training_step"), ("epoch stopping", TR + "reagent_lightning_module.py: StoppingEpochCallback")])

RM = "reagent/replay_memory/"
p("P11", "The circular replay buffer samples only valid, contiguous transitions",
  """After any history of insertions, including wrap-around, an index is sampleable only if its whole n-step (and stacking) window
  lies within one contiguous stretch of stored, same-episode experience, and the count of sampleable indices always equals the number of
  indices marked sampleable. Inserts are type/shape checked before any state changes and reads never go outside the filled region.""",
  ["histories", "inputs"], "all insertion histories, capacities, horizons and stack sizes", "Tests sample a few histories; validity is an invariant over all of them.",
  [RM + "circular_replay_buffer.py"], [("add/validity bookkeeping", RM + "circular_replay_buffer.py: add, _add, set_index_valid_status"), ("sampling", RM + "circular_replay_buffer.py: sample_index_batch")])

p("P12", "Prioritized sampling follows stored priorities",
  """After any sequence of priority updates, each internal node of the sum tree equals the sum of its children, the maximum recorded
  priority is the largest ever set, sampling by a query value returns the leaf whose cumulative interval contains it, and stratified
  sampling draws one value per equal-probability stratum. The prioritized buffer stores, updates and returns the priority of exactly
  the requested indices, and never returns an invalid index.""",
  ["histories", "inputs"], "all update/query sequences", "Tests exercise small fixed trees.",
  [RM + "sum_tree.py", RM + "prioritized_replay_buffer.py"], [("sum tree", RM + "sum_tree.py: set, sample, stratified_sample"), ("prioritized buffer", RM + "prioritized_replay_buffer.py")])

p("P13", "Sampled transitions assemble n-step returns and next states correctly",
  """For every sampled index, the returned reward is the discounted sum of rewards over the steps up to the first terminal or the
  horizon, the next state is the state that follows the last summed step, the terminal flag is that of that step, and the step count equals the number of
  summed rewards. Loading a saved checkpoint restores every stored array, the insertion counter and the set of sampleable indices, and fails on missing files before changing any state.""",
  ["histories", "inputs", "crash_points"], "all buffer contents, horizons and discounts", "Tests check a few horizons on synthetic data.",
  [RM + "circular_replay_buffer.py", RM + "utils.py"], [("n-step assembly", RM + "circular_replay_buffer.py: sample_transition_batch, _reduce_multi_step_reward, _get_batch_for_indices"), ("checkpointing", RM + "circular_replay_buffer.py: save, load")])

PP = "reagent/preprocessing/"
p("P14", "Dense feature normalisation applies each feature type's formula",
  """For every input, each normalised column equals its feature type's formula (probability logit, binary, mean/std, box-cox then
  mean/std, quantile interpolation, enum one-hot, action rescaling, identity) applied to its own input column, missing values
  produce zero, and non-action outputs are clamped to the configured range. Output columns follow the sorted feature order for any
  column order of types.""",
  INP, "all inputs, presence masks and normalisation-parameter sets", "Tests compare against sampled data for few feature sets.",
  [PP + "preprocessor.py"], [("per-type transforms", PP + "preprocessor.py: _preprocess_*, forward")])

p("P15", "Normalisation parameters are identified, ordered and serialised faithfully",
  """Feature types are identified from data by fixed rules, normalisation parameters are derived from the data by the type's formula, the
  output width counts enum features by their value count, features are ordered by type and then id identically everywhere, and
  serialising then deserialising parameters returns equal parameters.""",
  INP, "all data sets and parameter sets", "Tests sample a few distributions.",
  [PP + "normalization.py", PP + "identify_types.py", "reagent/parameters.py"], [("identification", PP + "identify_types.py"), ("parameters and ordering", PP + "normalization.py")])

p("P16", "Sparse features and sparse-to-dense conversion keep ids aligned",
  """For every sparse batch, id lists and id-score lists keep their offsets, ids are mapped (or hashed) per feature with scores staying
  attached to their ids, and sparse-to-dense conversion places each feature's value in its own sorted column with presence false
  exactly where the value is missing. Column transforms read and write only the columns they are configured for.""",
  INP, "all sparse inputs and feature configurations", "Tests use one or two feature configs.",
  [PP + "sparse_preprocessor.py", PP + "sparse_to_dense.py", PP + "transforms.py"], [("id mapping", PP + "sparse_preprocessor.py"), ("densification", PP + "sparse_to_dense.py")])

p("P17", "Action postprocessing inverts action normalisation",
  """For every continuous action, postprocessing maps the normalised training range back onto the feature's logged range so that it is
  the inverse of the preprocessing map, categorical postprocessing returns the logged action, and rescaling between two ranges is affine with
  endpoints mapping to endpoints.""",
  INP, "all actions and ranges", "Tests check sample points.",
  [PP + "postprocessor.py", PP + "normalization.py", "reagent/torch_utils.py", "reagent/gym/preprocessors/trainer_preprocessor.py"],
  [("postprocess", PP + "postprocessor.py: forward"), ("rescale", "reagent/torch_utils.py: rescale_torch_tensor")])

p("P18", "Batch construction wires every logged column to its training field",
  """For every logged batch, each field of the training batch (state, action, next state, next action, reward, time difference, steps, terminal flag,
  action masks, propensity, ids, sequence numbers, metrics) is derived from its own column with the stated shape,
  preprocessed by its own preprocessor, and the terminal indicator is true exactly where some next action is possible or a next
  state exists as configured.""",
  INP, "all batches and all four batch preprocessors", "Tests cover one shape per preprocessor, if any.",
  [PP + "batch_preprocessor.py", "reagent/types.py"], [("preprocessors", PP + "batch_preprocessor.py"), ("from_dict constructors", "reagent/types.py")])

p("P19", "Gym replay batches become correctly wired training batches",
  """For every replay sample, the trainer preprocessors build training input with one-hot (or rescaled) current and next actions, the
  negated terminal flag, all-ones masks for gym's always-possible actions, time difference one, propensity exp(log-prob), and slate inputs
  gathered from the document lists; replay inserters store exactly the observation, action, reward, terminal and log-probability
  of their own transition.""",
  INP, "all replay samples and trainer kinds", "Tests check one environment per maker.",
  ["reagent/gym/preprocessors/trainer_preprocessor.py", "reagent/gym/preprocessors/replay_buffer_inserters.py", "reagent/gym/preprocessors/default_preprocessors.py"],
  [("input makers", "reagent/gym/preprocessors/trainer_preprocessor.py"), ("inserters", "reagent/gym/preprocessors/replay_buffer_inserters.py")])

p("P20", "Offline data queries compute multi-step rewards and masks consistently",
  """For every row of the source table, the custom or discounted multi-step reward, the step count, the next-state, next-action and metric columns, the
  terminal flag, the dense columns with their presence flags and the possible-action masks are computed from that row's own columns at the configured horizon.
  Rows are kept exactly when the hash of their episode lies in the requested sample range, so whole episodes go to one side of the split, and normalisation
  statistics are identified per feature from the requested column. A data set collected in a gym environment holds every recorded transition exactly once.""",
  INP, "all tables and sampling configurations", "The Spark path cannot run in the test environment.",
  ["reagent/workflow/data_fetcher.py", "reagent/workflow/training.py", "reagent/workflow/utils.py", "reagent/workflow/data/manual_data_module.py"],
  [("query construction", "reagent/workflow/data_fetcher.py"), ("sample ranges", "reagent/workflow/data/manual_data_module.py: get_sample_range")])

p("P21", "Served predictors score preprocessed inputs and label outputs consistently",
  """For every request, a predictor preprocesses each input with the preprocessor of that input, evaluates the wrapped model on
  exactly those features, applies its post-processing, and returns action names in the order of its scores (or the sampled ranking and its
  propensity).""",
  INP, "all requests and wrapper kinds", "Tests compare a single random input per wrapper.",
  ["reagent/prediction/predictor_wrapper.py", "reagent/prediction/ranking/predictor_wrapper.py"],
  [("wrappers", "reagent/prediction/predictor_wrapper.py")])

p("P22", "Seq2Slate decodes without repetition and scores the sequence it emits",
  """At every decoding step, already chosen candidates and padding/start symbols are excluded, the per-step distribution is the
  (softmax or Frechet-ranked) normalisation of the remaining logits, the reported sequence probability is the product of per-step
  probabilities of the emitted items, and ranking and scoring modes agree on shifted decoder inputs and masks.""",
  INP, "all candidate sets, output lengths and decoding modes", "Tests check short fixed sequences.",
  ["reagent/models/seq2slate.py", "reagent/model_utils/seq2slate_utils.py"], [("decoding", "reagent/models/seq2slate.py"), ("masks and per-seq probabilities", "reagent/model_utils/seq2slate_utils.py")])

RK = TR + "ranking/"
p("P23", "Ranking trainers weight sequences by clamped importance and advantage",
  """For every ranking batch, the policy-gradient trainer weights each slate's log-probability by reward minus baseline times the
  importance weight (clamped as configured; one in value for the on-policy differentiable-reward loss), the pairwise/teacher-forcing trainers use the labels
  of the same slate, the simulation trainer uses the simulator's clamped and distance-adjusted reward for the sampled slate, and the baseline network
  regresses onto the reward without receiving policy gradient.""",
  INP, "all ranking batches and clamp methods", "Tests check one batch shape.",
  [RK + "seq2slate_trainer.py", RK + "seq2slate_attn_trainer.py", RK + "seq2slate_tf_trainer.py", RK + "seq2slate_sim_trainer.py", RK + "seq2slate_dr_trainer.py", RK + "helper.py"],
  [("policy gradient", RK + "seq2slate_trainer.py: train"), ("IPS clamp", RK + "helper.py: ips_clamp")])

p("P24", "Ranking batches index candidates, slates and propensities consistently",
  """For every ranking input, decoder indices are the logged positions shifted by the reserved symbols with the start symbol first,
  target sequences are the candidates gathered in logged order, and optional rewards, labels and propensities stay attached to
  their slates; Frechet sorting samples rankings by perturbed log-scores and its log-probability is that of the sampled ranking.""",
  INP, "all ranking inputs, with and without optional fields", "Tests check one instance.",
  ["reagent/types.py", "reagent/samplers/frechet.py", "reagent/preprocessing/transforms.py"], [("from_input/from_tensors", "reagent/types.py: PreprocessedRankingInput"), ("Frechet sort", "reagent/samplers/frechet.py")])

EV = "reagent/evaluation/"
p("P25", "Evaluation pages and evaluators consult networks in evaluation mode",
  """For every batch, building an evaluation page or running an evaluator consults its networks only in evaluation mode and without gradients
  and, unless an exception escapes, leaves each in the mode it came in; propensities, rewards, values and metrics of all and of the
  logged actions derive from the batch's own rows. Appending joins pages column by column, sorting orders by episode and step, logged values
  of the reward and of every metric are discounted returns within each episode, and scoring a metric substitutes all of that metric's columns.""",
  ["inputs", "configurations", "histories"], "all batches, model kinds and sequences of evaluated batches", "Tests construct pages for two fixed batches and never look at a network's mode.",
  [EV + "evaluation_data_page.py", EV + "ranking_listwise_evaluator.py", EV + "ranking_policy_gradient_evaluator.py", EV + "reward_net_evaluator.py",
   EV + "seq2reward_evaluator.py", EV + "compress_model_evaluator.py"],
  [("construction", EV + "evaluation_data_page.py: create_from_tensors_*"), ("append/sort/values", EV + "evaluation_data_page.py"),
   ("evaluators", EV + "ranking_listwise_evaluator.py")],
  "value-graph equivalence + typestate analysis of the training flag of every consulted network")

p("P26", "Single-step estimators (DM, IPS, DR) compute their textbook values",
  """For every evaluation page, the direct-method estimate is the policy-weighted model reward, the inverse-propensity estimate is the importance-weighted
  logged reward, and the doubly-robust estimate adds the importance-weighted residual to the direct method; each is normalised by
  the logged policy's value from the same rows.""",
  INP, "all evaluation pages", "Tests use a handful of synthetic pages.",
  [EV + "doubly_robust_estimator.py", EV + "cpe.py", EV + "evaluator.py"], [("estimators", EV + "doubly_robust_estimator.py"), ("bootstrapped standard errors", EV + "cpe.py")])

p("P27", "Sequential estimators compute per-episode DR, weighted DR and MAGIC",
  """For every evaluation page, sequential doubly-robust estimation recurses backwards within each episode using that episode's importance
  weights, rewards and model values; weighted estimation uses (self-normalised) cumulative weights per step, and MAGIC
  combines the j-step returns with simplex weights minimising estimated error, degenerating to weighted DR for one step.""",
  INP, "all evaluation pages and step counts", "Tests use few synthetic MDPs.",
  [EV + "sequential_doubly_robust_estimator.py", EV + "weighted_sequential_doubly_robust_estimator.py"],
  [("recursion", EV + "sequential_doubly_robust_estimator.py"), ("weighted returns", EV + "weighted_sequential_doubly_robust_estimator.py")])

OP = "reagent/ope/"
p("P28", "Contextual-bandit off-policy estimators compute their stated estimates",
  """For every logged bandit data set, DM averages the model's expected reward under the target policy, IPS averages importance-weighted
  rewards (normalised by total weight when self-normalised, clamped when configured), DR adds importance-weighted residuals, and
  the reported log, ground-truth and estimated values come from the same samples.""",
  INP, "all bandit logs and option settings", "Tests use tiny synthetic bandits.",
  [OP + "estimators/contextual_bandits_estimators.py"], [("estimators", OP + "estimators/contextual_bandits_estimators.py")])

p("P29", "Slate off-policy estimators weight slates and slots consistently",
  """For every slate log, slate DM/IPS/DR, pseudo-inverse and PBM estimators use the probability of the logged slate or slot under target and logging
  policies computed from normalised item probabilities without replacement, discount slots by position as the metric prescribes,
  and aggregate samples with their own weights.""",
  INP, "all slate logs", "Tests cover small enumerations.",
  [OP + "estimators/slate_estimators.py"], [("slate probabilities", OP + "estimators/slate_estimators.py"), ("estimators", OP + "estimators/slate_estimators.py")])

p("P30", "Sequential off-policy estimators follow their definitions per episode",
  """For every set of logged episodes, sequential DM, IPS (per-decision or trajectory, optionally self-normalised), DR and MAGIC
  discount rewards by position within the episode, multiply the importance ratios of the steps taken so far, and average over episodes.""",
  INP, "all episode logs", "Tests run gridworld smoke checks, not stably.",
  [OP + "estimators/sequential_estimators.py"], [("estimators", OP + "estimators/sequential_estimators.py")])

p("P31", "Off-policy value containers keep keys, values and statistics consistent",
  """Mappings from actions, items or slates to values return the value of the given key under any supported access, probabilities are non-negative and
  normalised before use, greedy and sampled choices follow those probabilities, and running averages and clamping follow their definitions.""",
  ["inputs", "histories"], "all key/value contents and operation sequences", "Tests use few fixed examples.",
  [OP + "estimators/types.py", OP + "utils.py"], [("values/distribution", OP + "estimators/types.py"), ("RunningAverage, Clamper", OP + "utils.py")])

p("P32", "Tabular reinforcement-learning trainers apply their update rules",
  """Monte-Carlo, TD and dynamic-programming evaluators apply their textbook update for every step (first or every visit, discounted
  return, bootstrapped target, model-weighted sum over transitions and policy), over all states, until their stopping condition.""",
  ["inputs", "histories"], "all episodes, models and policies", "No stable test exercises them.",
  [OP + "trainers/rl_tabular_trainers.py", OP + "trainers/linear_trainers.py"], [("updates", OP + "trainers/rl_tabular_trainers.py")])

p("P33", "The estimator adapters feed pages into estimators without mixing columns",
  """For every evaluation page, adapters translate logged propensities, rewards, actions, model rewards, model propensities and values into the estimator
  inputs sample by sample, and translate results back as raw, normalised, and their standard errors.""",
  INP, "all pages", "Tests cover two adapters on one page.",
  [EV + "ope_adapter.py"], [("adapters", EV + "ope_adapter.py")])

p("P34", "Episode rollouts record every step exactly once",
  """For every environment and policy, an episode ends at the first terminal step or the step limit, each recorded transition holds the
  observation acted on, the action and log-probability chosen there, the reward and terminal flag it produced, and after-step
  hooks see each transition once in order.""",
  ["histories", "schedules"], "all environments, policies and step limits", "Tests check simple environments.",
  ["reagent/gym/runners/gymrunner.py", "reagent/gym/agents/agent.py", "reagent/gym/types.py", "reagent/gym/agents/post_step.py", "reagent/gym/utils.py"],
  [("episode loop", "reagent/gym/runners/gymrunner.py: run_episode"), ("agent", "reagent/gym/agents/agent.py")])

p("P35", "Samplers draw from given scores and report matching log-probabilities",
  """For every score vector, softmax sampling uses probabilities softmax(scores/temperature), greedy picks the maximum, epsilon-greedy
  mixes uniform and greedy with the stated (annealed) epsilon, Gaussian sampling uses the scorer's mean and scale, top-k returns the k
  best, and the reported log-probability is that of the returned action; impossible actions are never chosen.""",
  INP, "all score vectors and sampler settings", "Tests cover little of the samplers.",
  ["reagent/gym/policies/samplers/discrete_sampler.py", "reagent/gym/policies/samplers/continuous_sampler.py", "reagent/gym/policies/samplers/top_k_sampler.py",
   "reagent/gym/policies/scorers/discrete_scorer.py", "reagent/gym/policies/scorers/continuous_scorer.py", "reagent/gym/policies/policy.py", "reagent/gym/policies/random_policies.py"],
  [("samplers", "reagent/gym/policies/samplers"), ("scorers", "reagent/gym/policies/scorers")])

p("P36", "Gym action and observation conversion is faithful",
  """Actions sent to an environment are the single action the policy chose, converted to the action space's type (rescaled affinely from the training range for
  continuous spaces), observations are converted without reordering, and environment wrappers pass rewards and terminals through unchanged.""",
  INP, "all spaces and actions", "Tests check endpoints.",
  ["reagent/gym/preprocessors/default_serving_preprocessors.py" if False else "reagent/gym/preprocessors/default_preprocessors.py", "reagent/gym/envs/env_wrapper.py", "reagent/gym/envs/gym.py", "reagent/gym/preprocessors/trainer_preprocessor.py"],
  [("action extractor", "reagent/gym/envs/env_wrapper.py"), ("rescaling", "reagent/gym/preprocessors")])

MO = "reagent/models/"
p("P37", "Q-networks compute the value function their architecture defines",
  """For every input, dueling networks return value plus advantage (centred over all outputs where every action is scored at once), categorical and quantile networks return the
  expectation or all atoms of a per-action normalised distribution, critics see state and action concatenated, and masked or batch-constrained
  variants penalise exactly the impossible actions.""",
  INP, "all inputs and layer configurations", "Tests check shapes and simple cases.",
  [MO + "dqn.py", MO + "dueling_q_network.py", MO + "categorical_dqn.py", MO + "bcq.py", MO + "critic.py", MO + "fully_connected_network.py", MO + "base.py"],
  [("forward passes", MO)])

p("P38", "Stochastic actors report the log-density of the action they return",
  """For every state, the Gaussian actor returns a squashed sample whose log-probability includes the tanh correction, clamps its log-scale, and evaluating the
  log-probability of that action gives the same formula; Dirichlet and deterministic actors scale outputs into the action range.""",
  INP, "all states and actions", "Tests check shapes only.",
  [MO + "actor.py"], [("Gaussian log-prob", MO + "actor.py: GaussianFullyConnectedActor")])

p("P39", "World models and planners score sequences with their stated losses",
  """For every batch, the mixture-density world model's losses are the mixture negative log-likelihood, reward and terminal losses over the
  same time steps; cross-entropy planning accumulates discounted rewards until terminal, keeps the best-scoring elites and refits its distribution to them;
  and sequence-reward models predict from the same action sequence they are trained on.""",
  INP, "all batches, horizons and populations", "Tests check convergence of toy cases.",
  [MO + "mdn_rnn.py", MO + "world_model.py", MO + "cem_planner.py", MO + "seq2reward_model.py", TR + "world_model/mdnrnn_trainer.py", TR + "world_model/seq2reward_trainer.py",
   TR + "world_model/compress_model_trainer.py", TR + "cem_trainer.py"],
  [("gmm loss", MO + "mdn_rnn.py"), ("planner", MO + "cem_planner.py"), ("trainers", TR + "world_model")])

p("P40", "Configurations resolve to exactly the registered component they name",
  """A union holds exactly one chosen member and returns its value, registries map every concrete class to its name once and refuse
  additions after being frozen, and every configuration class declares exactly the fields of the constructor it configures, filled with that
  constructor's defaults without sharing mutable state between instances.""",
  ["configurations", "programs"], "all registries, unions and configurations", "Tests check a few toy registries.",
  ["reagent/core/registry_meta.py", "reagent/core/tagged_union.py", "reagent/core/configuration.py", "reagent/core/dataclasses.py"],
  [("registry", "reagent/core/registry_meta.py"), ("union", "reagent/core/tagged_union.py"), ("config", "reagent/core/configuration.py")])

p("P41", "Observers receive every value of their key exactly once and aggregate correctly",
  """Notifying an observable with a declared key delivers the value to every observer of that key in registration order and rejects undeclared
  keys; interval and epoch-end aggregation process the accumulated values once and clear them; reporters publish results under the declared names.""",
  ["histories"], "all notification sequences", "Tests check single notifications.",
  ["reagent/core/tracker.py", "reagent/core/observers.py", "reagent/core/aggregators.py", "reagent/workflow/reporters/reporter_base.py"],
  [("tracker", "reagent/core/tracker.py"), ("observers", "reagent/core/observers.py"), ("aggregators", "reagent/core/aggregators.py")])

p("P42", "Optimizers and schedulers are built with the configured hyper-parameters",
  """For every optimizer configuration, the constructed optimizer receives exactly the given parameters and the configured hyper-parameters, every
  configured scheduler is attached to it in order, and stepping delegates to it.""",
  ["configurations"], "all optimizer/scheduler configurations", "Tests build each class with defaults.",
  ["reagent/optimizer/optimizer.py", "reagent/optimizer/scheduler.py", "reagent/optimizer/union.py", "reagent/optimizer/utils.py"],
  [("construction", "reagent/optimizer/optimizer.py: make_optimizer"), ("schedulers", "reagent/optimizer/scheduler.py")])

p("P43", "Net builders size networks from the data they will receive",
  """For every configuration, a net builder's input widths are the normalised widths of the given normalisation data, its output width is the
  action count or declared size, layer sizes and activations are the configured ones, and serving modules pair the model with the preprocessors of
  the same normalisation data and action names.""",
  ["configurations"], "all builder configurations", "Tests build one configuration per builder.",
  ["reagent/net_builder"], [("builders", "reagent/net_builder")])

p("P44", "Workflows build, train, evaluate, validate and publish the right artefacts",
  """A training run identifies or restores the normalisation, queries training and held-out rows over disjoint sample ranges, trains, then validates and publishes
  that run's own result, and writes every serving module to its own file; file-system publishing keeps exactly one model path per module and model configuration.
  Each model manager builds networks, targets, preprocessors, policies and serving modules from its own configuration and normalisation, and passes its
  trainer every parameter exactly once.""",
  ["configurations", "histories"], "all model managers and workflow runs", "Workflow tests cannot run in the test environment.",
  ["reagent/workflow/training.py", "reagent/workflow/model_managers", "reagent/publishers", "reagent/validators"],
  [("workflow", "reagent/workflow/training.py"), ("managers", "reagent/workflow/model_managers")])

p("P45", "Nothing the library is handed is silently altered",
  """Training on a batch, running a network, preprocessor, policy or sampler, and evaluating a policy never modify the tensors, arrays or containers passed as
  arguments, so the same batch can be reused with the same values. The configuration objects a trainer, network or
  policy is built from also keep their values, so one configuration can build several components, and the library's helper
  functions leave the arguments they are given as they were unless changing them is their purpose. Values shared by every user of a module or a class, such as
  a predefined board, a default configuration or a lookup table, are never altered either, so using one object has no effect on another.""",
  ["inputs", "configurations"], "all trainers, networks, preprocessors, policies, samplers and evaluators, and every batch and configuration they may be given",
  "Whether an in-place operation reaches the caller's storage depends on aliasing through views, dtype conversions and helper calls, and an altered batch still produces plausible results.",
  [TR], [("in-place operations on batch fields", TR)], "interprocedural may-alias and in-place effect analysis of every public method")

p("P46", "No code path fails on something that does not exist",
  """On every path of the library, including error paths and workflows no test reaches, each name is bound, each imported object exists, each attribute read from
  one of the library's own objects is one that such objects have, and a local variable has been assigned before it is read. Every call to one of the library's own
  functions, methods, constructors or records passes arguments that its signature accepts, with none missing and
  none in the place of another.""",
  ["programs", "configurations"], "all names, imports, attribute reads and calls in the library", "Most workflow, ranking and serving paths are never executed by the tests; such a mistake only shows when the path first runs.",
  ["reagent"], [("workflow", "reagent/workflow/training.py"), ("serving modules", "reagent/net_builder"), ("trainers", TR)], "scope, class-hierarchy, signature and definite-assignment analysis of the whole package")

p("P47", "Slate reward models predict the reward of the slate as shown",
  """A slate reward model scores a slate from its state, its candidates, and the items shown in the order shown: every presented item contributes at its position, items and
  positions not shown contribute nothing, and one reward per slate is returned. Attention in the encoder and decoder layers, residual connections and embeddings are composed as declared,
  with the declared sizes, and the exported model scores exactly the slates the trained model scores.""",
  ["inputs", "configurations"], "all batches of slates, candidates and network sizes", "A mis-ordered gather, a wrong mask or a swapped attention operand still yields a score of the right shape.",
  ["reagent/models/seq2slate_reward.py", "reagent/models/seq2slate.py"], [("Seq2SlateRewardNetBase", "reagent/models/seq2slate_reward.py"), ("Encoder and Decoder layers", "reagent/models/seq2slate.py")], "symbolic dataflow equality of the tensor programs")

p("P48", "Bundled environments follow their declared dynamics",
  """The simulated environments shipped with the library produce the states, rewards, legal actions and episode ends their definitions state, from every state and for every action
  and seed: linear dynamics with a quadratic cost, the string games, the maze game with its ghosts and sensors, the arms that wear out, the value-model ranking environments and the
  mask tester. An environment wrapped with a world model presents the model's memory of the recent history followed by the raw state, and resetting starts a fresh history.""",
  ["inputs", "histories", "configurations"], "all environment states, actions and seeds", "Tests run a few random episodes and look at average scores; a wrong reward, missed collision or off-by-one episode end still gives plausible episodes.",
  ["reagent/gym/envs"], [("PocManEnv", "reagent/gym/envs/pomdp/pocman.py"), ("LinDynaEnv", "reagent/gym/envs/dynamics/linear_dynamics.py"), ("ChangingArmsEnv", "reagent/gym/envs/changing_arms.py"), ("OraclePVM", "reagent/gym/envs/oracle_pvm.py"), ("ToyVMEnv", "reagent/gym/envs/toy_vm.py")], "symbolic equality of each environment's transition, reward and observation functions with reference definitions")

p("P49", "Evolution strategies mutate, update and agree as specified",
  """Every generation's children are the parents plus Gaussian mutations of the configured strength drawn from a seed fixed by the pool's seed and the generation alone, so all workers hold
  the same population. Parents move along the mutations weighted by standardised rewards, divided by population size and mutation strength, and stay put when all rewards are equal.
  Workers average their rewards over their own group before updating, and every worker applies the same update.""",
  ["inputs", "schedules", "configurations"], "all population sizes, tensor shapes, rewards and worker groups", "These modules cannot be imported in the test environment, and a wrong sign, scale or seed still produces a slowly improving population.",
  ["reagent/training/gradient_free"], [("EvolutionPool", "reagent/training/gradient_free/evolution_pool.py"), ("EsWorker", "reagent/training/gradient_free/es_worker.py")], "symbolic dataflow equality of update and random-draw sequences")

p("P50", "Reports show the numbers that were computed",
  """Running averages, recent-window means, per-action counts and distributions, charts and exported scalars are computed from exactly the values handed in, each batch once, and reach
  the sink under their own name; an estimate is shown with its own error. Every value handed to a log or error message appears in it, and every value the message names is the value
  in question.""",
  ["histories", "inputs"], "all sequences of reported batches and all messages", "Reports are side outputs that no test reads, so a swapped series or a silently dropped value goes unnoticed.",
  ["reagent/training/loss_reporter.py", "reagent/evaluation/cpe.py", "reagent/core/report_utils.py", "reagent/workflow/reporters"], [("LossReporter", "reagent/training/loss_reporter.py"), ("CpeEstimateSet", "reagent/evaluation/cpe.py")],
  "symbolic dataflow equality plus message-template lints over the whole package")

p("P51", "What is saved, serialised or published comes back as it was",
  """A policy or model loaded from a file behaves as the saved one did, a failed save or load reports failure, and a trainer's saved state covers every network it trains. A configuration turned into JSON and back has the same contents
  at every nesting level, function calls shipped to worker processes keep every argument and result in order, and lazily computed attributes are computed once. Every registered observer receives each
  published value under its name exactly once.""",
  ["inputs", "histories"], "all policies, models, configurations, call arguments and observer registrations", "Tests round-trip one or two small objects; a field forgotten on load still gives a working object.",
  ["reagent/ope/trainers/rl_tabular_trainers.py", "reagent/ope/estimators/types.py", "reagent/json_serialize.py", "reagent/core", TR], [("TabularPolicy", "reagent/ope/trainers/rl_tabular_trainers.py"), ("from_json", "reagent/json_serialize.py"), ("ObservableMixin", "reagent/core/tracker.py")],
  "symbolic equality of save/load, encode/decode and notification functions with reference definitions")

NA = [
    ("N01", "Training converges to good policies", "The policies produced by each trainer reach good returns on the bundled environments for every seed.",
     ["schedules", "inputs"], "all seeds and environments",
     "Depends on stochastic optimisation dynamics; no property of the source text decides it."),
    ("N02", "Estimators are statistically consistent",
     "Every off-policy estimator converges to the target policy's value as data grows, for every data distribution satisfying overlap.",
     ["inputs"], "all data distributions",
     "A statement about probability limits of the estimators; the definitional part is decided by P26-P33, the limit theorem is not a property of code paths."),
    ("N03", "The C++ serving runtime and its Python counterpart make the same decisions",
     "For every request and decision plan, the compiled serving runtime selects and logs the same actions and propensities as the Python implementation.",
     ["inputs", "programs"], "all requests and plans",
     "The C++ runtime depends on libtorch/folly-style headers that are not installed, so it cannot be parsed into a type-checked program here."),
    ("N04", "Scripted models equal eager models",
     "Every exported model returns the same outputs as the eager model for all inputs.",
     ["inputs"], "all inputs and models",
     "Equality is decided by the TorchScript compiler and kernels, which are outside the repository's source."),
    ("N05", "Parallel workers never deadlock or lose results",
     "Distributed evolution-strategy workers and subprocess helpers always terminate with every result collected.",
     ["schedules", "fault_sequences"], "all schedules and failures of worker processes",
     "The synchronisation is inside torch.distributed and multiprocessing, whose run-time behaviour the sources here do not determine."),
]
