"""Reference definitions: evolution strategies."""
import torch
import torch.distributed as distributed


def pool_init(self, ctor):
    self.es_params = ctor.es_params
    self.tensor_sizes = ctor.tensor_sizes
    self.seed = ctor.seed
    self.population_tensors = [{n: torch.zeros(size, dtype=torch.float) for n, size in ctor.tensor_sizes.items()} for _ in range(ctor.es_params.population_size)]
    torch.manual_seed(ctor.seed)
    self.parent_tensors = {}
    for n, size in ctor.tensor_sizes.items():
        self.parent_tensors[n] = torch.randn(size, dtype=torch.float)
        self.parent_tensors[n].grad = torch.randn(size, dtype=torch.float)
    self.optimizer = torch.optim.Adam(self.parent_tensors.values(), lr=ctor.es_params.learning_rate)
    self.populate_children(0)
    return self


def children(self, ctor, iteration):
    torch.manual_seed(iteration * 100000 + self.seed)
    for child in self.population_tensors:
        for name, parent in self.parent_tensors.items():
            t = child[name]
            t.normal_(0, self.es_params.mutation_power)
            t.add_(parent)


def apply_reward(self, ctor, rewards, next_iteration):
    spread = torch.std(rewards)
    if torch.abs(spread) > 1e-6:
        scaled = (rewards - torch.mean(rewards)) / spread
        for parent in self.parent_tensors.values():
            parent.grad.zero_()
        for i, child in enumerate(self.population_tensors):
            for name, parent in self.parent_tensors.items():
                t = child[name]
                t.sub_(parent)
                t.mul_(scaled[i])
                t.div_(self.es_params.population_size * self.es_params.mutation_power * -1)
                parent.grad += t
        self.optimizer.step()
    self.populate_children(next_iteration)


def local_rewards(self, ctor):
    return torch.tensor([self.compute_local_reward(c) for c in self.population_tensors], dtype=torch.float)


def one_max(self, ctor, individual):
    p = torch.sigmoid(individual["data"])
    return (torch.sum(p[0::2]) + torch.sum(1 - p[1::2])) / p.shape[0]


def worker_init(self, ctor):
    self.iteration = 0
    self.individual_pool = ctor.individual_pool
    self.es_params = ctor.es_params
    self.process_group = ctor.process_group
    self.num_nodes = ctor.num_nodes
    return self


def epoch(self, ctor):
    rewards = self.individual_pool.compute_all_local_rewards()
    distributed.all_reduce(rewards, group=self.process_group)
    rewards /= self.num_nodes
    self.iteration = self.iteration + 1
    self.individual_pool.apply_global_reward(rewards, self.iteration)
    return self.individual_pool.compute_local_reward(self.individual_pool.parent_tensors)
