"""P43: evolution strategies follow the reward-weighted perturbations, alike on every machine."""
import random
import sys
from types import ModuleType, SimpleNamespace

import torch
from vf.contracts._common import *
from vf.runner import contract

G_ = "reagent/training/gradient_free/"


def pool_module():
    """the module imports an internal package only for its side effects"""
    for n in ("torch.fb", "torch.fb.rendezvous", "torch.fb.rendezvous.zeus"):
        sys.modules.setdefault(n, ModuleType(n))
    torch.fb = sys.modules["torch.fb"]
    from reagent.training.gradient_free import evolution_pool
    return evolution_pool


class Step:
    def __init__(self):
        self.n = 0

    def step(self):
        self.n += 1


@contract("P43", "gradient", under=[G_ + "evolution_pool.py:EvolutionPool.apply_global_reward"], split=[("population", 2)], bound="populations of 2 or 3, any tensor size")
def gradient(c):
    mod = pool_module()
    from reagent.parameters import EvolutionParameters
    n = c.choice("population", [2, 3])
    D = c.dim("D")
    p = object.__new__(mod.EvolutionPool)
    sigma = c.real("sigma", 0.01, 10)
    p.es_params = SimpleNamespace(population_size=n, mutation_power=sigma, learning_rate=0.1)
    par = c.tensor("parent", [D])
    old = c.tensor("old gradient", [D])
    par.grad = old
    kids = [c.tensor(f"child{i}", [D]) for i in range(n)]
    p.parent_tensors = {"w": par}
    p.population_tensors = [{"w": k} for k in kids]
    r = c.tensor("rewards", [n])
    at = lambda t: (lambda i: c.at(t, i))
    was = [k.clone() for k in kids]
    p.optimizer = Step()
    again = []
    p.populate_children = again.append
    rs = [c.at(r, i) for i in range(n)]
    mean = c.div(sum(rs), n)
    var = c.div(sum((x - mean) * (x - mean) for x in rs), n - 1)
    big = var > 1e-6 ** 2 * 1.001
    small = var < 1e-6 ** 2 * 0.999
    c.assume(c.Or(big, small))
    sd = c.sqrt(var)
    c.call("apply", p.apply_global_reward, r, 7)
    c.same("the next generation follows", again, [7])
    if bool(big):
        c.same("one step of the optimiser", p.optimizer.n, 1)
        c.eqt("gradient: minus the mean of reward deviations times perturbations over the mutation power", par.grad, [D], lambda i: -c.div(sum(c.div(rs[j] - mean, sd) * (c.at(was[j], i) - c.at(par, i)) for j in range(n)), sigma * n))
    else:
        c.same("no step when all rewards are alike", p.optimizer.n, 0)


@contract("P43", "pools and workers", under=[G_ + "evolution_pool.py:" + x for x in ("EvolutionPool.__init__", "EvolutionPool.populate_children", "EvolutionPool.apply_global_reward", "EvolutionPool.compute_all_local_rewards", "OneMaxEvolutionPool.compute_local_reward")] + [G_ + "es_worker.py:EsWorker.run_epoch"], bounded=True, quick=60, bound="populations of up to 6, 2 tensors of up to 4 numbers, 3 machines, 3 epochs")
def pools(c):
    mod = pool_module()
    import reagent.training.gradient_free.es_worker as wm
    from reagent.parameters import EvolutionParameters
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    N, seed = rng.randint(2, 6), rng.randrange(1000)
    sizes = {"a": [rng.randint(1, 4)], "b": [2, rng.randint(1, 2)]}
    es = EvolutionParameters(population_size=N, mutation_power=rng.choice([0.1, 0.5]), learning_rate=0.05)
    K = rng.randint(1, 3)

    class Pool(mod.EvolutionPool):
        shift = 0.0

        def compute_local_reward(self, ind):
            return sum(float((t * (1 + i)).sum()) for i, t in enumerate(ind.values())) + self.shift * float(ind["a"][0])
    pools = [c.call("construct", Pool, seed, es, sizes) for _ in range(K)]
    for i, p in enumerate(pools):
        p.shift = float(i)
    clone = lambda p: {k: v.detach().clone() for k, v in p.parent_tensors.items()}
    kids = lambda p: [{k: v.detach().clone() for k, v in d.items()} for d in p.population_tensors]
    alike = lambda a, b: all(c.close(a[k], b[k], atol=1e-5) for k in a)
    c.check("shapes as asked", all(list(t.shape) == sizes[k] for p in pools for d in p.population_tensors + [p.parent_tensors] for k, t in d.items()) and all(len(p.population_tensors) == N for p in pools))
    c.check("machines start alike", all(alike(clone(pools[0]), clone(p)) and all(alike(a, b) for a, b in zip(kids(pools[0]), kids(p))) for p in pools))
    ws = [c.call("worker", wm.EsWorker, p, es, None, K) for p in pools]
    ref = {k: torch.nn.Parameter(v.clone()) for k, v in clone(pools[0]).items()}
    adam = torch.optim.Adam(ref.values(), lr=0.05)
    noise = lambda p: [{k: v - p.parent_tensors[k].detach() for k, v in d.items()} for d in kids(p)]
    drawn = [noise(pools[0])]
    for ep in range(rng.randint(1, 3)):
        par, ch = clone(pools[0]), kids(pools[0])
        c.check("children differ from each other and their parent", all(not alike(x, par) for x in ch) and not alike(ch[0], ch[1]))
        loc = [[p.compute_local_reward(x) for x in ch] for p in pools]
        tot = torch.tensor(loc).sum(0)
        for p, l in zip(pools, loc):
            c.check("reward of each child in its place", c.close(c.call("local rewards", p.compute_all_local_rewards), torch.tensor(l), atol=1e-4))
        m = tot / K
        norm = (m - m.mean()) / m.std()
        for k, q in ref.items():
            q.grad = -sum(norm[i] * (ch[i][k] - par[k]) for i in range(N)) / (N * es.mutation_power)
        adam.step()
        seen = []

        def reduce(t, group=None, **k):
            seen.append(t.clone())
            t.copy_(tot)
        for w, p, l in zip(ws, pools, loc):
            torch.manual_seed(rng.randrange(10 ** 6))
            out = c.call("epoch", w.run_epoch, inject={"distributed": SimpleNamespace(all_reduce=reduce)})
            c.check("its own rewards are shared", c.close(seen[-1], torch.tensor(l), atol=1e-4))
            c.check("the new parent's reward", abs(float(out) - p.compute_local_reward(p.parent_tensors)) < 1e-3)
            c.check("one optimiser step along the estimated gradient", all(c.close(p.parent_tensors[k].detach(), ref[k].detach(), atol=2e-3) for k in ref))
        c.check("machines stay alike", all(alike(clone(pools[0]), clone(p)) and all(alike(a, b) for a, b in zip(kids(pools[0]), kids(p))) for p in pools))
        c.check("a new generation is drawn", not any(alike(x, y) for x in kids(pools[0]) for y in ch))
        drawn.append(noise(pools[0]))
        c.check("in directions of its own", not any(alike(x, y) for z in drawn[:-1] for x in drawn[-1] for y in z))
        big = Pool(seed, es, {"a": [4000]})
        big.populate_children(ep + 1)
        d = torch.stack([x["a"] - big.parent_tensors["a"] for x in big.population_tensors])
        c.check("perturbed with the mutation power", abs(float(d.std()) / es.mutation_power - 1) < 0.1 and abs(float(d.mean())) < 0.1 * es.mutation_power)
    one = object.__new__(mod.OneMaxEvolutionPool)
    x = torch.tensor([rng.uniform(-3, 3) for _ in range(rng.randint(1, 6))])
    w = sum((s if i % 2 == 0 else 1 - s) for i, s in enumerate(torch.sigmoid(x).tolist())) / len(x)
    c.check("one-max reward", abs(float(c.call("one max", one.compute_local_reward, {"data": x})) - w) < 1e-5)
