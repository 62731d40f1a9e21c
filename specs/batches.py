"""Reference definitions: logged columns as fields of training batches, and the record types they are built from."""
import dataclasses

import torch
import torch.nn as nn
import torch.nn.functional as F
from reagent import types as rlt
from reagent.preprocessing.types import InputColumn


def moved(batch, device):
    return {k: v.to(device) for k, v in batch.items()}


def place(use_gpu):
    return torch.device("cuda") if use_gpu else torch.device("cpu")


def dqn_init(self, ctor):
    self.num_actions = ctor.num_actions
    self.state_preprocessor = ctor.state_preprocessor
    self.device = place(ctor.use_gpu)
    return self


def action_init(self, ctor):
    self.state_preprocessor = ctor.state_preprocessor
    self.action_preprocessor = ctor.action_preprocessor
    self.device = place(ctor.use_gpu)
    return self


def ids(batch):
    return rlt.ExtraData(mdp_id=batch["mdp_id"].unsqueeze(1), sequence_number=batch["sequence_number"].unsqueeze(1),
                         action_probability=batch["action_probability"].unsqueeze(1))


def states(self, batch):
    return (rlt.FeatureData(self.state_preprocessor(batch["state_features"], batch["state_features_presence"])),
            rlt.FeatureData(self.state_preprocessor(batch["next_state_features"], batch["next_state_features_presence"])))


def actions(self, batch):
    return (rlt.FeatureData(self.action_preprocessor(batch["action"], batch["action_presence"])),
            rlt.FeatureData(self.action_preprocessor(batch["next_action"], batch["next_action_presence"])))


def dqn(self, ctor, batch):
    batch = moved(batch, self.device)
    state, next_state = states(self, batch)
    # the last one-hot column stands for "no next action" and is dropped
    later = F.one_hot(batch["next_action"].to(torch.int64), self.num_actions + 1)[:, : self.num_actions]
    return rlt.DiscreteDqnInput(
        state=state, next_state=next_state, action=F.one_hot(batch["action"].to(torch.int64), self.num_actions), next_action=later,
        reward=batch["reward"].unsqueeze(1), time_diff=batch["time_diff"].unsqueeze(1), step=batch["step"].unsqueeze(1),
        not_terminal=batch["possible_next_actions_mask"].max(dim=1)[0].float().unsqueeze(1),
        possible_actions_mask=batch["possible_actions_mask"], possible_next_actions_mask=batch["possible_next_actions_mask"], extras=ids(batch))


def parametric(self, ctor, batch):
    batch = moved(batch, self.device)
    state, next_state = states(self, batch)
    action, next_action = actions(self, batch)
    return rlt.ParametricDqnInput(
        state=state, next_state=next_state, action=action, next_action=next_action, reward=batch["reward"].unsqueeze(1),
        time_diff=batch["time_diff"].unsqueeze(1), step=batch["step"].unsqueeze(1), not_terminal=batch["not_terminal"].unsqueeze(1),
        possible_actions=rlt.FeatureData(batch["possible_actions"]), possible_actions_mask=batch["possible_actions_mask"],
        possible_next_actions=rlt.FeatureData(batch["possible_next_actions"]),
        possible_next_actions_mask=batch["possible_next_actions_mask"], extras=ids(batch))


def policy(self, ctor, batch):
    batch = moved(batch, self.device)
    state, next_state = states(self, batch)
    action, next_action = actions(self, batch)
    return rlt.PolicyNetworkInput(
        state=state, next_state=next_state, action=action, next_action=next_action, reward=batch["reward"].unsqueeze(1),
        time_diff=batch["time_diff"].unsqueeze(1), step=batch["step"].unsqueeze(1), not_terminal=batch["not_terminal"].unsqueeze(1),
        extras=ids(batch))


# records --------------------------------------------------------------------
def filler(candidates, like):
    z = torch.zeros((like.shape[0], like.shape[1]))
    return rlt.DocList(float_features=candidates, mask=z.bool(), value=z.float())


def base_from_dict(batch):
    now = batch.get(InputColumn.CANDIDATE_FEATURES, None)
    later = batch.get(InputColumn.NEXT_CANDIDATE_FEATURES, None)
    return rlt.BaseInput(
        state=rlt.FeatureData(
            float_features=batch[InputColumn.STATE_FEATURES],
            id_list_features=batch.get(InputColumn.STATE_ID_LIST_FEATURES, None) or {},
            id_score_list_features=batch.get(InputColumn.STATE_ID_SCORE_LIST_FEATURES, None) or {},
            candidate_docs=None if now is None else filler(now, now)),
        next_state=rlt.FeatureData(
            float_features=batch[InputColumn.NEXT_STATE_FEATURES],
            id_list_features=batch.get(InputColumn.NEXT_STATE_ID_LIST_FEATURES, None) or {},
            id_score_list_features=batch.get(InputColumn.NEXT_STATE_ID_SCORE_LIST_FEATURES, None) or {},
            candidate_docs=None if later is None else filler(later, now)),
        reward=batch[InputColumn.REWARD], time_diff=batch[InputColumn.TIME_DIFF], step=batch.get(InputColumn.STEP, None),
        not_terminal=batch[InputColumn.NOT_TERMINAL])


def dqn_from_dict(self, batch):
    b = rlt.BaseInput.from_dict(batch)
    return self(state=b.state, next_state=b.next_state, reward=b.reward, time_diff=b.time_diff, step=b.step, not_terminal=b.not_terminal,
                action=batch[InputColumn.ACTION], next_action=batch[InputColumn.NEXT_ACTION],
                possible_actions_mask=batch[InputColumn.POSSIBLE_ACTIONS_MASK],
                possible_next_actions_mask=batch[InputColumn.POSSIBLE_NEXT_ACTIONS_MASK], extras=batch[InputColumn.EXTRAS])


def slate_q_from_dict(self, d):
    return self(
        state=rlt.FeatureData(float_features=d["state_features"], candidate_docs=rlt.DocList(
            float_features=d["candidate_features"], mask=d["item_mask"], value=d["item_probability"])),
        next_state=rlt.FeatureData(float_features=d["next_state_features"], candidate_docs=rlt.DocList(
            float_features=d["next_candidate_features"], mask=d["next_item_mask"], value=d["next_item_probability"])),
        action=d["action"], next_action=d["next_action"], reward=d["position_reward"], reward_mask=d["reward_mask"],
        time_diff=d["time_diff"], not_terminal=d["not_terminal"], step=None, extras=rlt.ExtraData.from_dict(d))


def parametric_from_dict(self, batch):
    def feats(k):
        return rlt.FeatureData(float_features=batch[k])

    return self(state=feats("state_features"), action=feats("action"), next_state=feats("next_state_features"), next_action=feats("next_action"),
                possible_actions=feats("possible_actions"), possible_actions_mask=batch["possible_actions_mask"],
                possible_next_actions=feats("possible_next_actions"), possible_next_actions_mask=batch["possible_next_actions_mask"],
                reward=batch["reward"], not_terminal=batch["not_terminal"], time_diff=batch["time_diff"], step=batch["step"],
                extras=batch["extras"])


def policy_from_dict(self, batch):
    b = rlt.BaseInput.from_dict(batch)
    return self(state=b.state, next_state=b.next_state, reward=b.reward, time_diff=b.time_diff, step=b.step, not_terminal=b.not_terminal,
                action=rlt.FeatureData(float_features=batch["action"]), next_action=rlt.FeatureData(float_features=batch["next_action"]),
                extras=batch.get("extras", None))


def extra_from_dict(self, d):
    return self(**{f.name: d.get(f.name, None) for f in dataclasses.fields(self)})


def shallow(self):
    return {"state": self.state, "next_state": self.next_state, "reward": self.reward, "time_diff": self.time_diff, "step": self.step,
            "not_terminal": self.not_terminal}


def rows(self):
    return self.state.float_features.size()[0]


def docs_defaults(self):
    if self.mask is None:
        self.mask = self.float_features.new_ones(self.float_features.shape[:2], dtype=torch.bool)
    if self.value is None:
        self.value = self.float_features.new_ones(self.float_features.shape[:2])
    return self


def select_slate(self, action):
    row = torch.repeat_interleave(torch.arange(action.shape[0]).unsqueeze(1), action.shape[1], dim=1)
    return rlt.DocList(self.float_features[row, action].detach(), self.mask[row, action].detach(), self.value[row, action].detach())


def docs_as_features(self):
    return rlt.FeatureData(self.float_features.view(-1, self.float_features.shape[2]))


def two_dimensional(self):
    if self.float_features.ndim != 3 and self.float_features.ndim != 2:
        raise ValueError()


def float_only(self):
    return not self.id_list_features and self.time_since_first is None and self.candidate_docs is None


def tiled(self, num_tiles):
    return rlt.FeatureData(float_features=self.float_features.repeat_interleave(repeats=num_tiles, dim=0))


def user_doc(self):
    docs = self.candidate_docs.float_features
    b, d = self.float_features.shape
    n = docs.shape[1]
    return torch.cat((torch.repeat_interleave(self.float_features, n, dim=0).reshape(b, n, d).float(), docs), dim=2)


def embed_states(x):
    s = x.float_features
    return rlt.FeatureData(float_features=torch.cat([s, x.candidate_docs.float_features.view(s.shape[0], -1)], dim=1))


def to_features(self, ctor, input):
    return rlt.FeatureData(input)


def memory_rows(self):
    d = len(self.state.float_features.size())
    if d == 2:
        return self.state.float_features.size()[0]
    if d == 3:
        return self.state.float_features.size()[1]
    raise NotImplementedError()


def on_gpu(self, *args, **kwargs):
    out = {}
    for k, v in self.__dict__.items():
        if isinstance(v, torch.Tensor):
            kwargs["non_blocking"] = kwargs.get("non_blocking", True)
            out[k] = v.cuda(*args, **kwargs)
        elif isinstance(v, rlt.TensorDataClass):
            out[k] = v.cuda(*args, **kwargs)
        else:
            out[k] = v
    return type(self)(**out)
