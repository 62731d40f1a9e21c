"""Reference definitions: tabular and linear trainers of the off-policy library."""
import math
from functools import reduce

import numpy as np
import torch
from reagent.ope.estimators.types import PredictResults
from reagent.ope.trainers.linear_trainers import LinearNet
from reagent.ope.trainers.rl_tabular_trainers import DPValueFunction
from reagent.ope.test.envs import PolicyLogGenerator
from reagent.ope.utils import RunningAverage
from sklearn.linear_model import Lasso, LogisticRegression, SGDClassifier
from sklearn.metrics import accuracy_score, mean_squared_error
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor


# ---- policy table
def policy_init(self, ctor):
    n = len(ctor.action_space)
    self._exploitation_prob = 1.0 - ctor.epsilon
    self._exploration_prob = ctor.epsilon / n
    self._uniform_probs = n * [1.0 / n]
    self._state_space = {}


def policy_update(self, ctor, state, actions):
    old = self._uniform_probs
    if state in self._state_space:
        old = self._state_space[state]
    self._state_space[state] = actions
    return reduce(lambda a, b: a + b, map(lambda p: (p[0] - p[1]) ** 2, zip(old, actions))) ** 0.5


def policy_dist(self, ctor, state):
    if state in self._state_space:
        return self._action_space.distribution(
            [p * self._exploitation_prob + self._exploration_prob for p in self._state_space[state]]
        )
    return self._action_space.distribution(self._uniform_probs)


# ---- values
def known_value(self, ctor, state):
    if state is None or state.is_terminal:
        return 0.0
    if state not in self._state_values:
        return 0.0
    return self._state_values[state]


def action_value(self, ctor, state, action):
    v = 0.0
    for s, rp in self._model.next_state_reward_dist(state, action).items():
        if s is None or s.is_terminal:
            nv = 0.0
        else:
            nv = self.state_value(s)
        v += rp.prob * (rp.reward + self._gamma * nv)
    return v


def sampled_values(self, ctor):
    gen = PolicyLogGenerator(self._env, self._policy)
    log = {}
    for s in self._env.states:
        episodes = []
        for _ in range(self._num_episodes):
            episodes.append(gen.generate_log(s))
        log[s] = episodes
    for s, episodes in log.items():
        avg = RunningAverage()
        for e in episodes:
            d, r = 1.0, 0.0
            for t in e:
                r += d * t.reward
                d *= self._gamma
            avg.add(r)
        self._state_values[s] = avg.average


def sampled_value(self, ctor, state):
    return self._state_values[state]


def dp_value(self, ctor, state, horizon=-1):
    if not self._evaluated:
        self._evaluate()
    return self._state_value(state)


def dp_reset(self, ctor, clear_state_values=False):
    self._evaluated = False
    if clear_state_values:
        self._state_values.clear()


def dp_evaluate(self, ctor):
    change = float("inf")
    while change >= self._threshold:
        change = 0.0
        for s in self._env.states:
            old = self._state_value(s)
            new = 0.0
            for a, p in self._policy(s):
                q = 0.0
                for s2, rp in self._model(s, a).items():
                    q += rp.prob * (rp.reward + self._gamma * self._state_value(s2))
                new += p * q
            change = max(change, abs(old - new))
            self._state_values[s] = new
    self._evaluated = True


def dp_train(self, ctor, gamma=0.9, threshold=0.0001):
    stable = False
    v = DPValueFunction(self._policy, self._env, gamma, threshold)
    while not stable:
        stable = True
        for s in self._env.states:
            best = []
            top = float("-inf")
            for a in self._policy.action_space:
                q = 0.0
                for s2, rp in self._env(s, a).items():
                    q += rp.prob * rp.reward
                    if s2 is not None:
                        q += rp.prob * gamma * v(s2)
                if q > top:
                    top = q
                    best = [a]
                elif q == top:
                    best.append(a)
            p = 1.0 / len(best)
            dist = [0.0] * len(self._policy.action_space)
            for a in best:
                dist[a.value] = p
            if self._policy.update(s, dist) >= 1.0e-6:
                stable = False
        v.reset()
    return v


# ---- Monte Carlo
def mc_update(self, ctor, state, g):
    v = super()._state_value(state)
    n = (self._state_counts[state] if state in self._state_counts else 0) + 1
    self._state_values[state] = v + (g - v) / n
    self._state_counts[state] = n


def mc_value(self, ctor, state):
    i = 0
    n = self._state_counts[state] if state in self._state_counts else 0
    while n < self._count_threshold and i < self._max_iteration:
        i += 1
        episode = self._log_generator.generate_log(state)
        if self._first_visit:
            left = {}
            for t in episode:
                if t.last_state is None:
                    continue
                if t.last_state in left:
                    left[t.last_state] += 1
                else:
                    left[t.last_state] = 1
            g = 0
            for t in reversed(episode):
                if t.last_state is None:
                    continue
                g = self._gamma * g + t.reward
                k = left[t.last_state]
                if k == 1:
                    self._update_state_value(t.last_state, g)
                k -= 1
                if k == 0:
                    del left[t.last_state]
                else:
                    left[t.last_state] = k
        else:
            g = 0
            for t in reversed(episode):
                if t.last_state is None:
                    continue
                g = self._gamma * g + t.reward
                self._update_state_value(t.last_state, g)
        n = self._state_counts[state] if state in self._state_counts else 0
    return super()._state_value(state)


def mc_reset(self, ctor, clear_state_values=False):
    if clear_state_values:
        self._state_values.clear()
        self._state_counts.clear()


def mc_train(self, ctor, iterations, gamma=0.9, first_visit=True, update_interval=20):
    i = 0
    table = {}
    while i < iterations:
        i += 1
        for s in self._env.states:
            episode = self._log_generator.generate_log(s)
            if first_visit:
                left = {}
                for t in episode:
                    if t.last_state is None or t.action is None:
                        continue
                    k = (t.last_state, t.action)
                    if k in left:
                        left[k] += 1
                    else:
                        left[k] = 1
                g = 0
                for t in reversed(episode):
                    if t.last_state is None or t.action is None:
                        continue
                    g = gamma * g + t.reward
                    k = (t.last_state, t.action)
                    n = left[k]
                    if n == 1:
                        self._update_state_value(table, t.last_state, t.action, g)
                    n -= 1
                    if n == 0:
                        del left[k]
                    else:
                        left[k] = n
            else:
                g = 0
                for t in reversed(episode):
                    if t.last_state is None or t.action is None:
                        continue
                    g = gamma * g + t.reward
                    self._update_state_value(table, t.last_state, t.action, g)
        if i % update_interval == 0 and self._update_policy(table):
            break


def mc_table_update(self, ctor, value_counts, state, action, g):
    k = (state, action)
    v, n = value_counts[k] if k in value_counts else (0.0, 0)
    n += 1
    value_counts[k] = (v + (g - v) / n, n)


def mc_policy(self, ctor, value_counts):
    stable = True
    for s in self._env.states:
        w = []
        for a in self._policy.action_space:
            k = (s, a)
            if k in value_counts:
                v, n = value_counts[k]
                w.append(v * n)
            else:
                w.append(0.0)
        w = torch.nn.functional.softmax(torch.tensor(w), dim=0).tolist()
        if self._policy.update(s, w) >= 1.0e-6:
            stable = False
    return stable


# ---- linear trainers
def sample(x, y, weight=None, num_samples=0, fortran_order=False):
    xs = x.numpy()
    if fortran_order:
        xs = xs.reshape(x.shape, order="F")
    ys = y.numpy()
    ws = None if weight is None else weight.numpy()
    if 0 < num_samples < x.shape[0]:
        pick = np.random.choice(x.shape[0], num_samples, replace=False)
        return xs[pick, :], ys[pick], (None if ws is None else ws[pick])
    return xs, ys, ws


def predict(self, ctor, x, device=None):
    if self._model is None:
        raise Exception("model not trained")
    if hasattr(self._model, "predict_proba"):
        p = torch.as_tensor(self._model.predict_proba(x), dtype=torch.float, device=device)
        return PredictResults(torch.argmax(p, 1), (p * torch.arange(p.shape[1])).sum(dim=1), p)
    if hasattr(self._model, "predict"):
        return PredictResults(None, torch.as_tensor(self._model.predict(x), dtype=torch.float, device=device), None)
    raise AttributeError("no predictions")


def scored(self, ctor, y_true, y_pred, weight=None):
    if self._is_classifier:
        return accuracy_score(y_true, y_pred, sample_weight=weight)
    return 1.0 / math.pow(2, mean_squared_error(y_true, y_pred, sample_weight=weight))


def score(self, ctor, x, y, weight=None):
    return self._score(y.numpy(), self._model.predict(x), weight=None if weight is None else weight.numpy())


def lasso(self, ctor, data, iterations=1, num_samples=0):
    self._model = None
    best = float("-inf")
    for _ in range(iterations):
        x, y, _w = super()._sample(data.train_x, data.train_y, data.train_weight, num_samples, True)
        vx, vy, vw = super()._sample(data.validation_x, data.validation_y, data.validation_weight)
        for a in np.logspace(-4, 2, num=7, base=10):
            m = Lasso(alpha=a, fit_intercept=False, copy_X=True, max_iter=10000, warm_start=False, selection="random")
            m.fit(x, y)
            s = self._score(vy, m.predict(vx), weight=vw)
            if s > best:
                best = s
                self._model = m


def tree(self, ctor, data, iterations=1, num_samples=0):
    self._model = None
    best = float("-inf")
    for _ in range(iterations):
        x, y, w = super()._sample(data.train_x, data.train_y, data.train_weight, num_samples, True)
        vx, vy, vw = super()._sample(data.validation_x, data.validation_y, data.validation_weight)
        if self._model is None:
            self._model = DecisionTreeRegressor(criterion="mse", splitter="random", max_depth=None, min_samples_split=4, min_samples_leaf=4)
            self._model.fit(x, y, w)
            best = self._score(vy, self._model.predict(vx), weight=vw)
        for depth in range(3, 21, 3):
            m = DecisionTreeRegressor(criterion="mse", splitter="random", max_depth=depth, min_samples_split=4, min_samples_leaf=4)
            m.fit(x, y, w)
            s = self._score(vy, m.predict(vx), weight=vw)
            if s > best:
                best = s
                self._model = m


def tree_classifier(self, ctor, data, iterations=1, num_samples=0):
    self._model = None
    best = float("-inf")
    for _ in range(iterations):
        x, y, w = super()._sample(data.train_x, data.train_y, data.train_weight, num_samples, True)
        vx, vy, vw = super()._sample(data.validation_x, data.validation_y, data.validation_weight)
        for depth in range(3, 21, 3):
            m = DecisionTreeClassifier(criterion="entropy", splitter="random", max_depth=depth, min_samples_split=4, min_samples_leaf=4)
            m.fit(x, y, w)
            s = m.score(vx, vy, vw)
            if s > best:
                best = s
                self._model = m


def logistic(self, ctor, data, iterations=1, num_samples=0):
    self._model = None
    best = float("-inf")
    for _ in range(iterations):
        x, y, w = super()._sample(data.train_x, data.train_y, data.train_weight, num_samples, True)
        vx, vy, vw = super()._sample(data.validation_x, data.validation_y, data.validation_weight)
        for c in np.logspace(-5, 4, num=10, base=10):
            m = LogisticRegression(C=c, fit_intercept=False, solver=self._solver, max_iter=1000, multi_class="auto", n_jobs=-1)
            m.fit(x, y, w)
            s = m.score(vx, vy, vw)
            if s > best:
                best = s
                self._model = m


def sgd(self, ctor, data, iterations=1, num_samples=0):
    self._model = None
    best = float("-inf")
    for _ in range(iterations):
        x, y, _w = super()._sample(data.train_x, data.train_y, data.train_weight, num_samples, True)
        vx, vy, vw = super()._sample(data.validation_x, data.validation_y, data.validation_weight)
        for a in np.logspace(-8, -1, num=8, base=10):
            m = SGDClassifier(loss=self._loss, alpha=a, random_state=0, max_iter=self._max_iter)
            m.fit(x, y)
            s = m.score(vx, vy, vw)
            if s > best:
                best = s
                self._model = m


def net_init(self, ctor):
    dim = ctor.D_in
    layers = []
    for _ in range(ctor.hidden_layers):
        layers.append(torch.nn.Linear(dim, ctor.H))
        layers.append(ctor.activation())
        dim = ctor.H
    layers.append(torch.nn.Linear(dim, ctor.D_out))
    self.model = torch.nn.Sequential(*layers)


def net_forward(self, ctor, x):
    return self.model(x)


def net_train(self, ctor, data, iterations=100, epochs=1, num_samples=0):
    d_in = data.train_x.shape[1]
    d_out = data.train_y.shape[1] if len(data.train_y.shape) > 1 else 1
    if d_in == 0 or d_out == 0:
        return None
    self._model = LinearNet(d_in, 500, d_out)
    if self._device is not None and self._device.type == "cuda":
        self._model = self._model.cuda()
    self._loss_fn = torch.nn.MSELoss(reduction="mean")
    opt = torch.optim.Adam(self._model.parameters(), lr=1e-3)
    sched = torch.optim.lr_scheduler.ReduceLROnPlateau(opt, "min", patience=5, verbose=True, threshold=1e-5)
    for _ in range(epochs):
        for t in range(iterations):
            x, y, _w = super()._sample(data.train_x, data.train_y, data.train_weight, num_samples, True)
            x = torch.as_tensor(x, device=self._device)
            y = torch.as_tensor(y, device=self._device)
            if len(y.shape) == 1:
                y = y.reshape(-1, 1)
            loss = self._loss_fn(self._model(x), y)
            if (t + 1) % 10 == 0:
                sched.step(loss.item())
            opt.zero_grad()
            loss.backward()
            opt.step()


def net_predict(self, ctor, x, device=None):
    if self._model is None:
        raise Exception("not trained")
    self._model.eval()
    p = torch.as_tensor(self._model(x), dtype=torch.float, device=device)
    return PredictResults(torch.argmax(p, 1), p)


# ---- construction
def table_built(self, ctor):
    self._policy = ctor.policy
    self._model = ctor.model
    self._gamma = ctor.gamma
    self._state_values = {}
    return self


def sampled_built(self, ctor):
    self._policy = ctor.policy
    self._env = ctor.env
    self._gamma = ctor.gamma
    self._num_episodes = ctor.num_episodes
    self._state_values = {}
    self._estimate_value()
    return self


def no_action_value(self, ctor, state, action):
    return 0.0


def forget(self, ctor):
    self._state_values = {}


def dp_built(self, ctor):
    self._policy = ctor.policy
    self._model = ctor.env
    self._gamma = ctor.gamma
    self._state_values = {}
    self._env = ctor.env
    self._threshold = ctor.threshold
    self._evaluated = False
    return self


def trainer_built(self, ctor):
    self._env = ctor.env
    self._policy = ctor.policy
    return self


def mc_built(self, ctor):
    self._policy = ctor.policy
    self._model = ctor.env
    self._gamma = ctor.gamma
    self._state_values = {}
    self._env = ctor.env
    self._first_visit = ctor.first_visit
    self._count_threshold = ctor.count_threshold
    self._max_iteration = ctor.max_iteration
    self._log_generator = PolicyLogGenerator(ctor.env, ctor.policy)
    self._state_counts = {}
    return self


def mc_state_value(self, ctor, state):
    return self._state_value(state)


def mc_trainer_built(self, ctor):
    self._env = ctor.env
    self._policy = ctor.policy
    self._log_generator = PolicyLogGenerator(ctor.env, ctor.policy)
    return self


def linear_built(self, ctor):
    self._model = None
    self._is_classifier = ctor.is_classifier
    return self


def classifier_built(self, ctor):
    self._model = None
    self._is_classifier = True
    return self


def logistic_built(self, ctor):
    self._model = None
    self._is_classifier = True
    self._solver = ctor.solver
    return self


def sgd_built(self, ctor):
    self._model = None
    self._is_classifier = True
    self._loss = ctor.loss
    self._max_iter = ctor.max_iter
    return self


def net_built(self, ctor):
    self._model = None
    self._device = ctor.device
    self._loss_fn = None
    return self


def net_score(self, ctor, x, y, weight=None):
    if self._loss_fn is not None:
        predicted = self._model(x)
        return self._loss_fn(predicted, y.reshape(predicted.shape)).item()
    raise Exception("not trained")
