"""Reference semantics of the training workflow and the model managers."""
import dataclasses
import importlib
import inspect
import os
import pickle

import numpy as np
import pytorch_lightning as pl
import torch
from petastorm import make_batch_reader
from petastorm.pytorch import DataLoader, decimal_friendly_collate
from fvcore.common.file_io import PathManager
from reagent import types as rlt
from reagent.evaluation.evaluator import get_metrics_to_score
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.predictor_policies import create_predictor_policy_from_model
from reagent.gym.policies.samplers.continuous_sampler import GaussianSampler
from reagent.gym.policies.samplers.discrete_sampler import GreedyActionSampler, SoftmaxActionSampler
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.gym.policies.scorers.discrete_scorer import discrete_dqn_scorer, parametric_dqn_scorer
from reagent.gym.policies.scorers.slate_q_scorer import slate_q_scorer
from reagent.models.cem_planner import CEMPlannerNetwork
from reagent.models.model_feature_config_provider import RawModelFeatureConfigProvider
from reagent.models.world_model import MemoryNetwork
from reagent.parameters import NormalizationData, NormalizationKey
from reagent.preprocessing.batch_preprocessor import DiscreteDqnBatchPreprocessor, PolicyNetworkBatchPreprocessor
from reagent.preprocessing.identify_types import CONTINUOUS_ACTION
from reagent.preprocessing.normalization import get_feature_config, get_num_output_features
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.preprocessing.types import InputColumn
from reagent.core.result_types import NoPublishingResults
from reagent.tensorboardX import summary_writer_context
from reagent.training import C51Trainer, CEMTrainer, DQNTrainer, DiscreteCRRTrainer, ParametricDQNTrainer, QRDQNTrainer, ReAgentLightningModule
from reagent.training import SACTrainer, SlateQTrainer, StoppingEpochCallback, TD3Trainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer
from reagent.workflow.data_fetcher import query_data
from reagent.workflow.env import get_new_named_entity_ids, get_workflow_id
from reagent.workflow.identify_types_flow import identify_normalization_parameters
from reagent.workflow.model_managers.actor_critic_base import ActorPolicyWrapper
from reagent.workflow.model_managers.discrete.discrete_crr import ActorDQN
from reagent.workflow.model_managers.discrete_dqn_base import DiscreteDqnDataModule
from reagent.workflow.model_managers.model_based.cross_entropy_method import CEMPolicy
from reagent.workflow.model_managers.model_based.world_model import WorldModel
from reagent.workflow.reporters.actor_critic_reporter import ActorCriticReporter
from reagent.workflow.reporters.discrete_crr_reporter import DiscreteCRRReporter
from reagent.workflow.reporters.discrete_dqn_reporter import DiscreteDQNReporter
from reagent.workflow.reporters.sac_reporter import SACReporter
from reagent.workflow.reporters.slate_q_reporter import SlateQReporter
from reagent.workflow.reporters.td3_reporter import TD3Reporter
from reagent.workflow.training import get_sample_range, query_and_train, run_publisher, run_validator
from reagent.workflow.types import PreprocessingOptions, ReaderOptions, ResourceOptions, RewardOptions, RLTrainingOutput, RLTrainingReport
from reagent.workflow.utils import PetastormLightningDataModule, collate_and_preprocess, get_petastorm_dataloader, get_rank, train_eval_lightning
from torch.utils.tensorboard import SummaryWriter


# ---- splitting, querying and training


def split(cls, spec, evaluate):
    share, held_out = spec.table_sample, spec.eval_table_sample
    if evaluate:
        assert share is not None and held_out is not None and share + held_out <= 100.0 + 1e-3
        return cls(train_sample_range=(0.0, share), eval_sample_range=(100.0 - held_out, 100.0))
    if share is None:
        return cls(train_sample_range=(0.0, 100.0), eval_sample_range=(0.0, 0.0))
    return cls(train_sample_range=(0.0, share), eval_sample_range=(0.0, 0.0))


def sample_ranges(input_table_spec, calc_cpe_in_training):
    from reagent.workflow.training import TrainEvalSampleRanges
    return split(TrainEvalSampleRanges, input_table_spec, calc_cpe_in_training)


def module_sample_ranges(input_table_spec, calc_cpe_in_training):
    from reagent.workflow.data.manual_data_module import TrainEvalSampleRanges
    return split(TrainEvalSampleRanges, input_table_spec, calc_cpe_in_training)


def identify_and_train(input_table_spec, model, num_epochs, use_gpu, reward_options, reader_options, resource_options, warmstart_path,
                       validator, publisher):
    gpu = torch.cuda.is_available() if use_gpu is None else use_gpu
    rewards = reward_options if reward_options else RewardOptions()
    reading = reader_options if reader_options else ReaderOptions()
    manager = model.value
    module = manager.get_data_module(input_table_spec=input_table_spec, reward_options=rewards, reader_options=reading)
    prepared, norms = None, None
    if module is None:
        norms = manager.run_feature_identification(input_table_spec)
    else:
        prepared = module.prepare_data()
    return query_and_train(input_table_spec, model, num_epochs, use_gpu=gpu, setup_data=prepared, normalization_data_map=norms,
                           reward_options=rewards, reader_options=reading, resource_options=resource_options,
                           warmstart_path=warmstart_path, validator=validator, publisher=publisher)


def query_train(input_table_spec, model, num_epochs, use_gpu, setup_data, saved_setup_data, normalization_data_map, reward_options,
                reader_options, resource_options, warmstart_path, validator, publisher, named_model_ids, recurring_period):
    run_id = get_workflow_id()
    manager = model.value
    names = get_new_named_entity_ids(manager.serving_module_names()) if named_model_ids is None else named_model_ids
    rewards = reward_options if reward_options else RewardOptions()
    reading = reader_options if reader_options else ReaderOptions()
    resources = resource_options if resource_options else ResourceOptions()
    saved = saved_setup_data
    if saved_setup_data is not None:
        saved = {k: v if isinstance(v, bytes) else v.data for k, v in saved_setup_data.items()}
    prepared, norms = setup_data, normalization_data_map
    if setup_data is None:
        module = manager.get_data_module(input_table_spec=input_table_spec, reward_options=rewards, reader_options=reading, saved_setup_data=saved)
        if module is not None:
            prepared = module.prepare_data()
            norms = None
    if int(prepared is not None) + int(norms is not None) != 1:
        raise ValueError()
    training, evaluation = None, None
    if norms is not None:
        evaluate = manager.should_generate_eval_dataset
        ranges = get_sample_range(input_table_spec, evaluate)
        training = manager.query_data(input_table_spec=input_table_spec, sample_range=ranges.train_sample_range, reward_options=rewards)
        if evaluate:
            evaluation = manager.query_data(input_table_spec=input_table_spec, sample_range=ranges.eval_sample_range, reward_options=rewards)
    out = manager.train_workflow(training, evaluation, num_epochs=num_epochs, use_gpu=use_gpu, setup_data=prepared, normalization_data_map=norms,
                                 named_model_ids=names, child_workflow_id=run_id, reward_options=rewards, reader_options=reading,
                                 resource_options=resources, warmstart_path=warmstart_path)
    if validator is not None:
        out = run_validator(validator, out)
    if publisher is not None:
        out = run_publisher(publisher, model, out, names, run_id, recurring_period)
    return out


def validated(validator, training_output):
    assert training_output.validation_result is None
    return dataclasses.replace(training_output, validation_result=validator.value.validate(training_output))


def published(publisher, model_chooser, training_output, recurring_workflow_ids, child_workflow_id, recurring_period):
    assert training_output.publishing_result is None
    outcome = publisher.value.publish(model_chooser.value, training_output, recurring_workflow_ids, child_workflow_id, recurring_period)
    return dataclasses.replace(training_output, publishing_result=outcome)


def validate(self, training_output):
    from reagent.workflow.types import ValidationResult__Union
    return ValidationResult__Union.make_union_instance(self.do_validate(training_output), inspect.signature(self.do_validate).return_annotation)


def publish(self, model_manager, training_output, recurring_workflow_ids, child_workflow_id, recurring_period):
    from reagent.workflow.types import PublishingResult__Union
    outcome = self.do_publish(model_manager, training_output, recurring_workflow_ids, child_workflow_id, recurring_period)
    return PublishingResult__Union.make_union_instance(outcome, inspect.signature(self.do_publish).return_annotation)


# ---- the model manager


def manager_init(self, ctor):
    self._normalization_data_map = None
    self._reward_options = None
    self._trainer = None
    self._use_gpu = None
    self._lightning_trainer = None
    self._lightning_checkpoint_path = None


def use_gpu(self):
    return self._use_gpu


def trainer(self):
    return self._trainer


def reward_options(self):
    return self._reward_options


def destroy(self):
    self._trainer = None


def no_module(self, input_table_spec, reward_options, setup_data, saved_setup_data, reader_options):
    return None


def default_names(self):
    return ["default_model"]


def train_workflow(self, train_dataset, eval_dataset, num_epochs, use_gpu, named_model_ids, child_workflow_id, setup_data, normalization_data_map,
                   reward_options, reader_options, resource_options, warmstart_path):
    import time
    writer = SummaryWriter()
    module = None
    if setup_data is not None:
        module = self.get_data_module(setup_data=setup_data, reader_options=reader_options)
        module.setup()
    norms = normalization_data_map
    if normalization_data_map is None:
        norms = module.get_normalization_data_map(self.required_normalization_keys)
    self.initialize_trainer(use_gpu=use_gpu, reward_options=reward_options, normalization_data_map=norms, warmstart_path=warmstart_path or None)
    reading = reader_options if reader_options else ReaderOptions()
    resources = resource_options if resource_options else ResourceOptions()
    with summary_writer_context(writer):
        result = self.train(train_dataset, eval_dataset, module, num_epochs, reading, resources)
    paths = {}
    for name, served in self.build_serving_modules().items():
        path = f"model_{name}_{round(time.time())}.torchscript"
        torch.jit.save(served, path)
        paths[name] = path
    return dataclasses.replace(result, output_paths=paths)


def reward_options_set(self, reward_options):
    assert self._reward_options is None
    self._reward_options = reward_options


def normalization_of(self, attr):
    if not attr.endswith("_normalization_data"):
        raise AttributeError()
    assert self._normalization_data_map is not None
    found = self._normalization_data_map.get(attr[: -len("_normalization_data")], None)
    if found is None:
        raise AttributeError()
    return found


def initialize_trainer(self, use_gpu, reward_options, normalization_data_map, warmstart_path):
    assert self._trainer is None
    self._use_gpu = use_gpu
    self.reward_options = reward_options
    for key in self.required_normalization_keys:
        assert normalization_data_map.get(key, None) is not None
        assert normalization_data_map.get(key, None).dense_normalization_parameters is not None
    assert self._normalization_data_map is None
    self._normalization_data_map = normalization_data_map
    built = self.build_trainer()
    self._trainer = built
    if warmstart_path is not None:
        if isinstance(built, pl.LightningModule):
            self._lightning_checkpoint_path = warmstart_path
        else:
            built.load_state_dict(torch.load(warmstart_path))
    return built


def serving_modules(self):
    return {"default_model": self.build_serving_module()}


def save_trainer(self, output_path):
    if self._lightning_trainer:
        self.trainer._cleanly_stopped[0] = True
        self._lightning_trainer.save_checkpoint("/tmp/lightning_save_checkpoint_local_copy")
        with open("/tmp/lightning_save_checkpoint_local_copy", "rb") as source:
            content = source.read()
        with PathManager.open(output_path, "wb") as target:
            target.write(content)
    else:
        torch.save(self.trainer.state_dict(), output_path)


# ---- data modules


def module_init(self, ctor):
    self.input_table_spec = ctor.input_table_spec
    self.reward_options = ctor.reward_options
    self.reader_options = ctor.reader_options
    self._model_manager = ctor.model_manager
    self.setup_data = ctor.setup_data
    self.saved_setup_data = ctor.saved_setup_data or {}
    self._setup_done = False


def prepare_data(self):
    if self.setup_data is not None:
        return None
    if "normalization_data_map" in self.saved_setup_data:
        norms = pickle.loads(self.saved_setup_data["normalization_data_map"])
    else:
        norms = self.run_feature_identification(self.input_table_spec)
    evaluate = self.should_generate_eval_dataset
    from reagent.workflow.data.manual_data_module import get_sample_range as split
    ranges = split(self.input_table_spec, evaluate)
    training = self.query_data(input_table_spec=self.input_table_spec, sample_range=ranges.train_sample_range, reward_options=self.reward_options)
    evaluation = None
    if evaluate:
        evaluation = self.query_data(input_table_spec=self.input_table_spec, sample_range=ranges.eval_sample_range, reward_options=self.reward_options)
    self.setup_data = {"normalization_data_map": pickle.dumps(norms), "train_dataset": pickle.dumps(training), "eval_dataset": pickle.dumps(evaluation)}
    return self.setup_data


def setup(self, stage):
    if not self._setup_done:
        self._normalization_data_map = pickle.loads(self.setup_data["normalization_data_map"])
        self._train_dataset = pickle.loads(self.setup_data["train_dataset"])
        self._eval_dataset = pickle.loads(self.setup_data["eval_dataset"])
        self._setup_done = True


def norms_of_module(self, keys):
    return self._normalization_data_map


def dataloader(self, dataset):
    preprocess = self.build_batch_preprocessor()
    reader = make_batch_reader(dataset.parquet_url, num_epochs=1, reader_pool_type=self.reader_options.petastorm_reader_pool_type)
    from reagent.workflow.data.manual_data_module import _closing_iter, collate_and_preprocess as collate
    return _closing_iter(DataLoader(reader, batch_size=self.reader_options.minibatch_size,
                                    collate_fn=collate(batch_preprocessor=preprocess, use_gpu=False)))


def manual_train_loader(self):
    return self.get_dataloader(self._train_dataset)


def manual_test_loader(self):
    held_out = getattr(self, "_eval_dataset", None)
    return self.get_dataloader(held_out) if held_out else None


def closing_iter(dataloader):
    yield from dataloader
    dataloader.__exit__(None, None, None)


def closing_method(self, dataloader):
    yield from dataloader
    dataloader.__exit__(None, None, None)


def collated(batch_preprocessor, use_gpu):
    def collate(rows):
        batch = batch_preprocessor(decimal_friendly_collate(rows))
        return batch.cuda() if use_gpu else batch

    return collate


def petastorm_loader(dataset, batch_size, batch_preprocessor, use_gpu, reader_options):
    reader = make_batch_reader(dataset.parquet_url, num_epochs=1, reader_pool_type=reader_options.petastorm_reader_pool_type)
    return DataLoader(reader, batch_size=batch_size, collate_fn=collate_and_preprocess(batch_preprocessor=batch_preprocessor, use_gpu=use_gpu))


def peta_loader(self, dataset):
    return self._closing_iter(get_petastorm_dataloader(dataset=dataset, batch_size=self.reader_options.minibatch_size,
                                                       batch_preprocessor=self.batch_preprocessor, use_gpu=False, reader_options=self.reader_options))


def peta_train(self):
    return peta_loader(self, self.train_dataset)


def peta_test(self):
    return peta_loader(self, self.eval_dataset)


def rank():
    if torch.distributed.is_available() and torch.distributed.is_initialized():
        return torch.distributed.get_rank()
    return 0


def fit(train_dataset, eval_dataset, trainer_module, data_module, num_epochs, use_gpu, batch_preprocessor, reader_options, checkpoint_path,
        resource_options):
    reading = reader_options if reader_options else ReaderOptions()
    data = data_module if data_module else PetastormLightningDataModule(train_dataset, eval_dataset, batch_preprocessor, reading)
    driver = pl.Trainer(max_epochs=num_epochs * 1000, gpus=int(use_gpu), reload_dataloaders_every_epoch=True,
                        resume_from_checkpoint=checkpoint_path, callbacks=[StoppingEpochCallback(num_epochs)])
    driver.fit(trainer_module, datamodule=data)
    driver.test()
    return driver


# ---- managers of discrete-action algorithms


def state_features(self):
    return self.state_feature_config_provider.value.get_model_feature_config()


def dqn_policy(self, serving):
    if serving:
        return create_predictor_policy_from_model(self.build_serving_module(), rl_parameters=self.rl_parameters)
    return Policy(scorer=discrete_dqn_scorer(self.trainer.q_network), sampler=GreedyActionSampler())


def metrics(self):
    if self._metrics_to_score is None:
        self._metrics_to_score = get_metrics_to_score(self._reward_options.metric_reward_values)
    return self._metrics_to_score


def state_only(self):
    return [NormalizationKey.STATE]


def dqn_module(self, input_table_spec, reward_options, reader_options, setup_data, saved_setup_data):
    return DiscreteDqnDataModule(input_table_spec=input_table_spec, reward_options=reward_options, setup_data=setup_data,
                                 saved_setup_data=saved_setup_data, reader_options=reader_options, model_manager=self)


def dqn_train(self, train_dataset, eval_dataset, data_module, num_epochs, reader_options, resource_options):
    reporter = self.get_reporter()
    self.trainer.set_reporter(reporter)
    self._lightning_trainer = train_eval_lightning(
        train_dataset=train_dataset, eval_dataset=eval_dataset, trainer_module=self.trainer, data_module=data_module, num_epochs=num_epochs,
        use_gpu=self.use_gpu, reader_options=self.reader_options, checkpoint_path=self._lightning_checkpoint_path, resource_options=resource_options)
    if get_rank() == 0:
        return RLTrainingOutput(training_report=RLTrainingReport.make_union_instance(reporter.generate_training_report()))
    return RLTrainingOutput()


def whitelist(options, features):
    return (options if options else PreprocessingOptions())._replace(whitelist_features=[f.feature_id for f in features.float_feature_infos])


def found(key, table, column, options):
    return NormalizationData(dense_normalization_parameters=identify_normalization_parameters(table, column, options))


def dqn_features(self, input_table_spec):
    manager = self.model_manager
    return {NormalizationKey.STATE: found(0, input_table_spec, InputColumn.STATE_FEATURES, whitelist(manager.preprocessing_options, manager.state_feature_config))}


def dqn_query(self, input_table_spec, sample_range, reward_options):
    manager = self.model_manager
    return query_data(input_table_spec=input_table_spec, discrete_action=True, actions=manager.action_names, include_possible_actions=True,
                      sample_range=sample_range, custom_reward_expression=reward_options.custom_reward_expression,
                      multi_steps=manager.multi_steps, gamma=manager.rl_parameters.gamma)


def inputs(norm, gpu):
    return Preprocessor(norm.dense_normalization_parameters, use_gpu=gpu)


def dqn_preprocessor(self):
    manager = self.model_manager
    return DiscreteDqnBatchPreprocessor(num_actions=len(manager.action_names), state_preprocessor=inputs(self.state_normalization_data, manager.use_gpu),
                                        use_gpu=manager.use_gpu)


def dqn_evaluates(self):
    return self.model_manager.eval_parameters.calc_cpe_in_training


def q_net(self, builder, outputs):
    return builder.build_q_network(self.state_feature_config, self.state_normalization_data, outputs)


def cpe_nets(self):
    if not self.eval_parameters.calc_cpe_in_training:
        return None, None, None
    outputs = (len(self.metrics_to_score) + 1) * len(self.trainer_param.actions)
    builder = self.cpe_net_builder.value
    reward = q_net(self, builder, outputs)
    q = q_net(self, builder, outputs)
    return reward, q, q.get_target_network()


def dqn_trainer(self):
    q = q_net(self, self.net_builder.value, len(self.action_names))
    target = q.get_target_network()
    reward, q_cpe, q_cpe_target = cpe_nets(self)
    self._q_network = q
    return DQNTrainer(q_network=q, q_network_target=target, reward_network=reward, q_network_cpe=q_cpe, q_network_cpe_target=q_cpe_target,
                      metrics_to_score=self.metrics_to_score, evaluation=self.eval_parameters, **self.trainer_param.asdict())


def qrdqn_trainer(self):
    q = self.net_builder.value.build_q_network(self.state_normalization_data, len(self.action_names), num_atoms=self.trainer_param.num_atoms)
    target = q.get_target_network()
    reward, q_cpe, q_cpe_target = cpe_nets(self)
    self._q_network = q
    return QRDQNTrainer(q_network=q, q_network_target=target, reward_network=reward, q_network_cpe=q_cpe, q_network_cpe_target=q_cpe_target,
                        metrics_to_score=self.metrics_to_score, evaluation=self.eval_parameters, **self.trainer_param.asdict())


def c51_trainer(self):
    p = self.trainer_param
    q = self.net_builder.value.build_q_network(state_normalization_data=self.state_normalization_data, output_dim=len(self.action_names),
                                               num_atoms=p.num_atoms, qmin=p.qmin, qmax=p.qmax)
    target = q.get_target_network()
    self._q_network = q
    return C51Trainer(q_network=q, q_network_target=target, **p.asdict())


def crr_trainer(self):
    self._actor_network = self.actor_net_builder.value.build_actor(self.state_normalization_data, len(self.action_names))
    critics = self.critic_net_builder.value
    self._q1_network = q_net(self, critics, len(self.action_names))
    second = q_net(self, critics, len(self.action_names)) if self.trainer_param.double_q_learning else None
    reward, q_cpe, q_cpe_target = cpe_nets(self)
    return DiscreteCRRTrainer(actor_network=self._actor_network, q1_network=self._q1_network, reward_network=reward, q2_network=second,
                              q_network_cpe=q_cpe, q_network_cpe_target=q_cpe_target, metrics_to_score=self.metrics_to_score,
                              evaluation=self.eval_parameters, **self.trainer_param.asdict())


def served_q(self, builder, network):
    return builder.build_serving_module(network, self.state_normalization_data, action_names=self.action_names,
                                        state_feature_config=self.state_feature_config)


def dqn_serving(self):
    return served_q(self, self.net_builder.value, self._q_network)


def crr_policy(self, serving):
    from reagent.workflow.model_managers.discrete.discrete_crr import ActorPolicyWrapper
    if serving:
        return create_predictor_policy_from_model(self.build_actor_module())
    return ActorPolicyWrapper(self._actor_network)


def crr_modules(self):
    critics = self.critic_net_builder.value
    return {"default_model": self.build_actor_module(), "dqn": served_q(self, critics, self._q1_network),
            "actor_dqn": served_q(self, critics, ActorDQN(self._actor_network))}


def crr_actor_module(self):
    return self.actor_net_builder.value.build_serving_module(self._actor_network, self.state_normalization_data,
                                                             action_feature_ids=list(range(len(self.action_names))))


def actor_dqn(self, state):
    return self.actor(state).action


def multi_steps(self):
    return self.rl_parameters.multi_steps


def dqn_reporter(self):
    return DiscreteDQNReporter(self.trainer_param.actions, target_action_distribution=self.target_action_distribution)


def crr_reporter(self):
    return DiscreteCRRReporter(self.trainer_param.actions, target_action_distribution=self.target_action_distribution)


def crr_names(self):
    return ["default_model", "dqn", "actor_dqn"]


def ac_reporter(self):
    return ActorCriticReporter()


def sac_reporter(self):
    return SACReporter()


def td3_reporter(self):
    return TD3Reporter()


def slate_reporter(self):
    return SlateQReporter()


def never(self):
    return False


# ---- managers of continuous-control algorithms


def actor_act(self, obs, possible_actions_mask):
    self.actor_network.eval()
    out = self.actor_network(obs)
    self.actor_network.train()
    return out.detach().cpu()


def evaluates(self):
    return self.eval_parameters.calc_cpe_in_training


def ac_policy(self, serving):
    if serving:
        return create_predictor_policy_from_model(self.build_serving_module())
    return ActorPolicyWrapper(self._actor_network)


def state_config(self):
    return get_feature_config(self.state_float_features)


def action_config(self):
    return get_feature_config(self.action_float_features)


def item_config(self):
    return get_feature_config(self.item_float_features)


def ac_state_options(self):
    return whitelist(self._state_preprocessing_options, self.state_feature_config)


def ac_action_options(self):
    features = [f.feature_id for f in self.action_feature_config.float_feature_infos]
    kind = self.action_feature_override
    if kind is None:
        kind = self.actor_net_builder.value.default_action_preprocessing
    options = self._action_preprocessing_options if self._action_preprocessing_options else PreprocessingOptions()
    return options._replace(whitelist_features=features, feature_overrides={f: kind for f in features})


def ac_features(self, input_table_spec):
    state = found(0, input_table_spec, InputColumn.STATE_FEATURES, self.get_state_preprocessing_options())
    action = found(0, input_table_spec, InputColumn.ACTION, self.get_action_preprocessing_options())
    return {NormalizationKey.STATE: state, NormalizationKey.ACTION: action}


def state_action(self):
    return [NormalizationKey.STATE, NormalizationKey.ACTION]


def ac_query(self, input_table_spec, sample_range, reward_options):
    return query_data(input_table_spec=input_table_spec, discrete_action=False, include_possible_actions=False,
                      custom_reward_expression=reward_options.custom_reward_expression, sample_range=sample_range)


def ac_preprocessor(self):
    return PolicyNetworkBatchPreprocessor(state_preprocessor=inputs(self.state_normalization_data, self.use_gpu),
                                          action_preprocessor=inputs(self.action_normalization_data, self.use_gpu), use_gpu=self.use_gpu)


def ac_train(self, train_dataset, eval_dataset, data_module, num_epochs, reader_options, resource_options):
    preprocess = self.build_batch_preprocessor()
    reporter = self.get_reporter()
    self.trainer.set_reporter(reporter)
    self._lightning_trainer = train_eval_lightning(
        train_dataset=train_dataset, eval_dataset=eval_dataset, trainer_module=self.trainer, data_module=data_module, num_epochs=num_epochs,
        use_gpu=self.use_gpu, batch_preprocessor=preprocess, reader_options=self.reader_options,
        checkpoint_path=self._lightning_checkpoint_path, resource_options=resource_options if resource_options else ResourceOptions())
    return RLTrainingOutput(training_report=RLTrainingReport.make_union_instance(reporter.generate_training_report()))


def continuous_nets(self):
    self._actor_network = self.actor_net_builder.value.build_actor(self.state_normalization_data, self.action_normalization_data)
    builder = self.critic_net_builder.value
    self._q1_network = builder.build_q_network(self.state_normalization_data, self.action_normalization_data)
    if self.use_2_q_functions:
        return builder.build_q_network(self.state_normalization_data, self.action_normalization_data)
    return None


def sac_trainer(self):
    second = continuous_nets(self)
    value = self.value_net_builder.value.build_value_network(self.state_normalization_data) if self.value_net_builder else None
    return SACTrainer(actor_network=self._actor_network, q1_network=self._q1_network, value_network=value, q2_network=second,
                      **self.trainer_param.asdict())


def td3_trainer(self):
    second = continuous_nets(self)
    return TD3Trainer(actor_network=self._actor_network, q1_network=self._q1_network, q2_network=second, **self.trainer_param.asdict())


def sac_serving(self):
    return self.actor_net_builder.value.build_serving_module(self._actor_network, self.state_normalization_data, self.action_normalization_data,
                                                             serve_mean_policy=self.serve_mean_policy)


def td3_serving(self):
    return self.actor_net_builder.value.build_serving_module(self._actor_network, self.state_normalization_data, self.action_normalization_data)


# ---- managers over action features and slates


def parametric_policy(self, serving):
    count = get_num_output_features(self.action_normalization_data.dense_normalization_parameters)
    if serving:
        return create_predictor_policy_from_model(self.build_serving_module(), max_num_actions=count)
    return Policy(scorer=parametric_dqn_scorer(max_num_actions=count, q_network=self._q_network),
                  sampler=SoftmaxActionSampler(temperature=self.rl_parameters.temperature))


def parametric_features(self, input_table_spec):
    state = found(0, input_table_spec, InputColumn.STATE_FEATURES, whitelist(self._state_preprocessing_options, self.state_feature_config))
    action = found(0, input_table_spec, InputColumn.ACTION, whitelist(self._action_preprocessing_options, self.action_feature_config))
    return {NormalizationKey.STATE: state, NormalizationKey.ACTION: action}


def parametric_trainer(self):
    builder = self.net_builder.value
    self._q_network = builder.build_q_network(self.state_normalization_data, self.action_normalization_data)
    reward = builder.build_q_network(self.state_normalization_data, self.action_normalization_data, output_dim=len(self.metrics_to_score) + 1)
    return ParametricDQNTrainer(q_network=self._q_network, q_network_target=self._q_network.get_target_network(), reward_network=reward,
                                **self.trainer_param.asdict())


def parametric_serving(self):
    return self.net_builder.value.build_serving_module(self._q_network, self.state_normalization_data, self.action_normalization_data)


def slate_policy(self, serving):
    if serving:
        return create_predictor_policy_from_model(self.build_serving_module(), max_num_actions=self.num_candidates, slate_size=self.slate_size)
    return Policy(scorer=slate_q_scorer(num_candidates=self.num_candidates, q_network=self._q_network), sampler=TopKSampler(k=self.slate_size))


def slate_features(self, input_table_spec):
    state = found(0, input_table_spec, InputColumn.STATE_FEATURES, whitelist(self._state_preprocessing_options, self.state_feature_config))
    options = self._item_preprocessing_options if self._item_preprocessing_options else PreprocessingOptions()
    options = options._replace(whitelist_features=[f.feature_id for f in self.item_feature_config.float_feature_infos],
                               sequence_feature_id=self.slate_feature_id)
    item = found(0, input_table_spec, InputColumn.STATE_SEQUENCE_FEATURES, options)
    return {NormalizationKey.STATE: state, NormalizationKey.ITEM: item}


def state_item(self):
    return [NormalizationKey.STATE, NormalizationKey.ITEM]


def slate_trainer(self):
    self._q_network = self.net_builder.value.build_q_network(self.state_normalization_data, self.item_normalization_data)
    if self.use_gpu:
        self._q_network = self._q_network.cuda()
    return SlateQTrainer(q_network=self._q_network, q_network_target=self._q_network.get_target_network(), **self.trainer_param.asdict())


def slate_serving(self):
    return self.net_builder.value.build_serving_module(self._q_network, self.state_normalization_data, self.item_normalization_data)


# ---- managers of model-based algorithms


def cem_act(self, obs, possible_actions_mask):
    plan = self.cem_planner_network(obs)
    chosen = plan[1] if self.discrete_action else plan
    return rlt.ActorOutput(action=chosen.unsqueeze(0), log_prob=torch.tensor(0.0))


def cem_policy(self, serving):
    return CEMPolicy(self.cem_planner_network, self.discrete_action)


def cem_trainer(self):
    p = self.trainer_param
    worlds = WorldModel(trainer_param=p.mdnrnn)
    worlds.initialize_trainer(self.use_gpu, self.reward_options, self._normalization_data_map)
    trainers = [worlds.build_trainer() for _ in range(p.num_world_models)]
    ranges = list(self.action_normalization_data.dense_normalization_parameters.values())
    discrete = ranges[0].feature_type != CONTINUOUS_ACTION
    lower, upper = None, None
    if not discrete:
        upper = np.array([v.max_value for v in ranges])
        lower = np.array([v.min_value for v in ranges])
    planner = CEMPlannerNetwork(
        mem_net_list=[t.memory_network for t in trainers], cem_num_iterations=p.cem_num_iterations, cem_population_size=p.cem_population_size,
        ensemble_population_size=p.ensemble_population_size, num_elites=p.num_elites, plan_horizon_length=p.plan_horizon_length,
        state_dim=get_num_output_features(self.state_normalization_data.dense_normalization_parameters),
        action_dim=get_num_output_features(self.action_normalization_data.dense_normalization_parameters),
        discrete_action=discrete, terminal_effective=p.mdnrnn.not_terminal_loss_weight > 0, gamma=p.rl.gamma, alpha=p.alpha, epsilon=p.epsilon,
        action_upper_bounds=upper, action_lower_bounds=lower)
    self.discrete_action = discrete
    self.cem_planner_network = planner
    return CEMTrainer(cem_planner_network=planner, world_model_trainers=trainers, parameters=p, use_gpu=self.use_gpu)


def seq2reward_trainer(self):
    built = Seq2RewardTrainer(seq2reward_network=self.net_builder.value.build_value_network(self.state_normalization_data), params=self.trainer_param)
    if self.use_gpu:
        built.seq2reward_network = built.seq2reward_network.cuda()
        built.step_predict_network = built.step_predict_network.cuda()
        built.all_permut = built.all_permut.cuda()
    return built


def world_trainer(self):
    p = self.trainer_param
    memory = MemoryNetwork(state_dim=get_num_output_features(self.state_normalization_data.dense_normalization_parameters), action_dim=p.action_dim,
                           num_hiddens=p.hidden_size, num_hidden_layers=p.num_hidden_layers, num_gaussians=p.num_gaussians)
    if self.use_gpu:
        memory = memory.cuda()
    return MDNRNNTrainer(memory_network=memory, params=p)


# ---- publishing


def publish_files(self, model_manager, training_output, recurring_workflow_ids, child_workflow_id, recurring_period):
    for name, path in training_output.output_paths.items():
        assert os.path.exists(path)
        from tinydb import Query
        key = f"{name}_{str(model_manager)}"
        stored = self.db.search(Query()["model_config"] == key)
        if len(stored) == 0:
            self.db.insert({"model_config": key, "torchscript_path": path})
        elif len(stored) > 1:
            raise RuntimeError()
        else:
            self.db.update({"torchscript_path": path}, Query()["model_config"] == key)
    return NoPublishingResults(success=True)


def latest_file(self, model_manager, module_name):
    from tinydb import Query
    stored = self.db.search(Query()["model_config"] == f"{module_name}_{str(model_manager)}")
    if len(stored) == 0:
        raise ValueError()
    if len(stored) != 1:
        raise RuntimeError()
    return stored[0]["torchscript_path"]


def accept(self, training_output):
    from reagent.core.result_types import NoValidationResults
    return NoValidationResults(should_publish=True)


def unpublished(self, model_manager, training_output, recurring_workflow_ids, child_workflow_id, recurring_period):
    return NoPublishingResults(success=True)


# ---- what managers derive from their configuration


def discrete_setup(self):
    self.rl_parameters = self.trainer_param.rl
    self.action_names = self.trainer_param.actions
    assert len(self.action_names) > 1


def discrete_setup_sized(self):
    discrete_setup(self)
    assert self.trainer_param.minibatch_size % 8 == 0


def no_whitelist(options):
    assert options is None or options.whitelist_features is None


def ac_setup(self):
    no_whitelist(self.state_preprocessing_options)
    no_whitelist(self.action_preprocessing_options)
    self._state_preprocessing_options = self.state_preprocessing_options
    self._action_preprocessing_options = self.action_preprocessing_options
    self.rl_parameters = self.trainer_param.rl


def slate_setup(self):
    no_whitelist(self.state_preprocessing_options)
    no_whitelist(self.item_preprocessing_options)
    assert self.item_preprocessing_options is None or self.item_preprocessing_options.sequence_feature_id is None
    assert self.slate_size > 0 and self.num_candidates > 0
    self._state_preprocessing_options = self.state_preprocessing_options
    self._item_preprocessing_options = self.item_preprocessing_options
    self.eval_parameters = self.trainer_param.evaluation


def cli_select(config_dict, ConfigClass):
    return {f.name: config_dict[f.name] for f in dataclasses.fields(ConfigClass) if f.name in config_dict}


def cli_load(workflow):
    module_name, func_name = workflow.rsplit(".", 1)
    return getattr(importlib.import_module(module_name), func_name)
