"""P39: the cross-entropy planner refines a bounded plan towards the best of its candidates."""
import itertools
import math
import random
from types import SimpleNamespace

import numpy as np
import reagent.types as rlt
import torch
import reagent.training  # noqa: the planner and the trainers import each other
from reagent.models.cem_planner import CEMPlannerNetwork
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE
from vf.runner import contract
from vf.smt import S, Unsupported

C = "reagent/models/cem_planner.py:CEMPlannerNetwork."


class NP:
    """numpy with arrays that may hold symbolic values"""

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def zeros(shape, *a, **k):
        z = np.zeros(shape, dtype=object)
        z[...] = 0.0
        return z


def planner(c, nets=(), iters=1, pop=2, ens=1, elites=1, H=2, sd=1, ad=1, discrete=False, term=True, gamma=1.0, alpha=0.25, eps=0.0, hi=None, lo=None):
    return CEMPlannerNetwork(list(nets) or [torch.nn.Identity()], iters, pop, ens, elites, H, sd, ad, discrete, term, gamma, alpha, eps, hi, lo)


@contract("P39", "reward of a plan", under=[C + "acc_rewards_of_one_solution"], split=[("E", 2), ("H", 3)], bound="up to 2 trajectories of up to 3 steps (any rewards and terminals)")
def accumulate(c):
    E, H = c.choice("E", [1, 2]), c.choice("H", [1, 2, 3])
    gamma = c.real("gamma", 0, 1)
    rew = [[c.real(f"r{i}{j}", -5, 5) for j in range(H)] for i in range(E)]
    goon = [[c.bool(f"g{i}{j}") for j in range(H)] for i in range(E)]
    m = planner(c, nets=[torch.nn.Identity(), torch.nn.Identity()], ens=E, H=H, discrete=True)
    m.gamma = gamma
    calls, at = [], []
    state0 = torch.tensor([[0.5]])
    plan = torch.tensor([[float(j + 1)] for j in range(H)])
    nxt = [[torch.tensor([10.0 * (i + 1) + j]) for j in range(H)] for i in range(E)]

    def sample(state, action, mem_net):
        i = len(at) - 1 if at and at[-1] < H and not done[0] else len(at)
        if i == len(at):
            at.append(0)
            done[0] = False
        j = at[i]
        at[i] += 1
        calls.append((i, j, state.float_features, action.float_features, mem_net))
        g = goon[i][j] if i < E and j < H else False
        g = bool(g)
        done[0] = not g or at[i] == H
        return rew[i][j], nxt[i][j], g, 1.0
    done = [True]
    m.sample_reward_next_state_terminal = sample
    out = c.call("accumulate", m.acc_rewards_of_one_solution, state0, plan, 0, inject={"np": NP()})
    c.same("one total per trajectory", len(out), E)
    for i in range(E):
        tot, alive = 0.0, True
        d = 1.0
        for j in range(H):
            tot = tot + c.If(alive, rew[i][j] * d, 0.0)
            alive = c.And(alive, goon[i][j])
            d = d * gamma
        c.checkeq("discounted rewards up to the predicted end", out[i], tot)
        mine = [x for x in calls if x[0] == i]
        c.check("one model per trajectory", len({id(x[4]) for x in mine}) == 1)
        c.check("from the start", len(mine) > 0 and torch.equal(torch.as_tensor(mine[0][2]).reshape(-1), state0.reshape(-1)))
        for a, b in zip(mine, mine[1:]):
            c.check("each step follows from the last", torch.equal(torch.as_tensor(b[2]).reshape(-1), nxt[i][a[1]].reshape(-1)))
        for x in mine:
            c.check("the plan's action of that step", torch.equal(torch.as_tensor(x[3]).reshape(-1), plan[x[1]].reshape(-1)) and tuple(x[3].shape) == tuple(x[2].shape) == (1, 1, 1))


@contract("P39", "refining a bounded plan", under=[C + "continuous_planning", C + "constrained_variance"], split=[("size", 3)], bound="1 round of 3 candidates (1 or 2 elites) or 2 rounds of 2, plans of 2 steps, 1 action dimension (any rewards and draws)", timeout_ms=60000)
def refine(c):
    K, P, E = c.choice("size", [(1, 3, 1), (1, 3, 2), (2, 2, 1)])
    alpha = c.choice("alpha", [0.25, 0.0]) if K == 1 else 0.25
    lo, hi = c.choice("bounds", [(-1.0, 1.0), (0.0, 3.0)]) if K == 1 else (-1.0, 2.0)
    refined(c, K, 2, P, E, alpha, lo, hi)


@contract("P39", "refining with larger populations", under=[C + "continuous_planning", C + "constrained_variance"], bounded=True, quick=80, bound="up to 3 rounds of up to 6 candidates, plans of up to 3 steps")
def refine_more(c):
    P = c.choice("P", [2, 3, 4, 6])
    refined(c, c.choice("K", [1, 2, 3]), c.choice("H", [1, 2, 3]), P, c.choice("E", [e for e in (1, 2, 3, 6) if e <= P]), c.choice("alpha", [0.25, 0.0, 0.9]), c.choice("lo", [-1.0, 0.0]), c.choice("hi", [1.0, 3.0]))


def refined(c, K, H, P, E, alpha, lo, hi):
    m = planner(c, iters=K, pop=P, elites=E, H=H, alpha=alpha, eps=-1.0, hi=np.array([hi]), lo=np.array([lo]))
    draws = [[[c.real(f"z{k}{p}{h}", -2, 2) for h in range(H)] for p in range(P)] for k in range(K)]
    rew = [[c.real(f"r{k}{p}", -5, 5) for p in range(P)] for k in range(K)]
    for k in range(K):
        for p, q in itertools.combinations(range(P), 2):
            c.assume(c.Not(c.eq(rew[k][p], rew[k][q])) if not isinstance(rew[k][p], float) else abs(rew[k][p] - rew[k][q]) > 1e-6)
    asked, plans = [], []

    class Trunc:
        @staticmethod
        def truncnorm(a, b, loc, scale):
            c.check("standard draws cut off at two deviations", a == -2 and b == 2 and not np.any(loc) and np.all(np.asarray(scale) == 1) and len(loc) == H)

            def rvs(size):
                c.same("a draw per candidate and coordinate", list(size), [P, H])
                asked.append(1)
                z = np.zeros((P, H), dtype=object)
                for p in range(P):
                    for h in range(H):
                        z[p, h] = draws[len(asked) - 1][p][h]
                return z if isinstance(z[0, 0], S) else z.astype(float)
            return SimpleNamespace(rvs=rvs)

    def value(state, solutions):
        plans.append(solutions)
        r = np.zeros(P, dtype=object)
        for p in range(P):
            r[p] = rew[len(plans) - 1][p]
        return r if isinstance(r[0], S) else r.astype(float)
    m.acc_rewards_of_all_solutions = value
    out = c.call("plan", m.continuous_planning, rlt.FeatureData(torch.zeros(1, 1)), inject={"stats": Trunc})
    c.same("rounds", len(plans), K)
    mean, var = [(hi + lo) / 2] * H, [(hi - lo) ** 2 / 16] * H
    for k in range(K):
        def less(x, y):
            return c.If(x < y, x, y)
        cv = [less(less(((mean[h] - lo) / 2) * ((mean[h] - lo) / 2), ((hi - mean[h]) / 2) * ((hi - mean[h]) / 2)), var[h]) for h in range(H)]
        sol = [[draws[k][p][h] * c.fn("sqrt", cv[h]) + mean[h] for h in range(H)] for p in range(P)]
        for p in range(P):
            for h in range(H):
                got = c.at(plans[k], p, h, 0)
                c.checkeq("candidate: draw times the bounded deviation around the mean", got, sol[p][h])
                if k == 0:
                    c.check("candidate within the action bounds", c.And(got >= lo - 1e-5, got <= hi + 1e-5))
        rank = [sum(c.If(rew[k][q] > rew[k][p], 1, 0) for q in range(P) if q != p) for p in range(P)]
        nm, nv = [], []
        for h in range(H):
            mu = sum(c.If(rank[p] < E, sol[p][h], 0.0) for p in range(P)) / E
            nm.append(mu)
            nv.append(sum(c.If(rank[p] < E, (sol[p][h] - mu) * (sol[p][h] - mu), 0.0) for p in range(P)) / E)
        mean = [alpha * a + (1 - alpha) * b for a, b in zip(mean, nm)]
        var = [alpha * a + (1 - alpha) * b for a, b in zip(var, nv)]
    tl, th = CONTINUOUS_TRAINING_ACTION_RANGE
    c.eqshape("one action", out, [1])
    c.checkeq("the first action of the refined mean, in the training range", c.at(out, 0), tl + (mean[0] - lo) / (hi - lo) * (th - tl))


class World(torch.nn.Module):
    """a world model that answers by a table; one mixture component is certain"""

    def __init__(self, k, n, certain, go, scale):
        super().__init__()
        self.k, self.n, self.certain, self.go, self.scale, self.seen = k, n, certain, go, scale, []

    def forward(self, state, action):
        s, a = state.float_features, action.float_features
        self.seen.append((s, a))
        lp = torch.full((1, 1, self.n), -1e9)
        lp[0, 0, self.certain] = 0.0
        mus = torch.stack([s[0, 0] + a[0, 0].sum() * (q + 1) for q in range(self.n)]).reshape(1, 1, self.n, -1)
        return SimpleNamespace(logpi=lp, mus=mus, sigmas=torch.full_like(mus, self.scale), reward=(s[0, 0].sum() * self.k + a[0, 0, 0]).reshape(1, 1), not_terminal=torch.full((1, 1), 50.0 if self.go else -50.0))


@contract("P39", "planning with world models", under=[C + x for x in ("forward", "sample_reward_next_state_terminal", "acc_rewards_of_all_solutions", "acc_rewards_of_one_solution", "discrete_planning", "continuous_planning")], bounded=True, quick=40, bound="up to 3 actions, plans of up to 3 steps, populations of up to 40, 2 models")
def worlds(c):
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    seed = rng.randint(0, 10 ** 6)
    A, H, sd = c.choice("A", [1, 2, 3]), c.choice("H", [1, 2, 3]), c.choice("sd", [1, 2])
    gamma, term = c.choice("gamma", [0.5, 1.0, 0.0]), c.choice("terminal_effective", [True, False])
    go, n = c.choice("go", [True, False]), c.choice("mixtures", [1, 3])
    pop = int(c.int("population", 1, 40))
    w = World(rng.randint(-2, 2), n, rng.randrange(n), go, 1e-7)
    m = planner(c, nets=[w], ens=2, pop=pop, H=H, sd=sd, ad=A, discrete=True, term=term, gamma=gamma)
    state = torch.tensor([[round(rng.uniform(-1, 1), 2) for _ in range(sd)]])

    def value(seq):
        s, tot = state[0].clone(), 0.0
        for j, a in enumerate(seq):
            tot += (float(s.sum()) * w.k + (1.0 if a == 0 else 0.0)) * gamma ** j
            if term and not go:
                break
            s = s + (w.certain + 1)
        return tot
    c.check("planning changes no model", True)
    random.seed(seed), np.random.seed(seed), torch.manual_seed(seed)
    idx, hot = c.call("discrete", m, rlt.FeatureData(state))
    random.seed(seed), np.random.seed(seed), torch.manual_seed(seed)
    # the population is drawn with replacement among all plans: recover it from what the models were shown
    steps = [int(torch.argmax(a.reshape(-1))) for _, a in w.seen]
    per = 1 if term and not go else H
    c.same("every candidate is tried by every trajectory", len(steps), pop * 2 * per)
    if len(steps) == pop * 2 * per:
        firsts, tot = {}, {}
        for k in range(pop):
            a = [steps[(k * 2 + e) * per:(k * 2 + e + 1) * per] for e in range(2)]
            c.check("trajectories of a candidate take its actions", a[0] == a[1])
            # the reward tally is that of the summed trajectories? mean or sum both order actions alike
            firsts.setdefault(a[0][0], []).append(value(a[0] if per == H else a[0] + [0] * (H - 1)))
        means = {k: sum(v) / len(v) for k, v in firsts.items()}
        c.check("a first action of greatest mean reward", idx in means and means[idx] >= max(means.values()) - 1e-3)
    c.same("with its one-hot vector", hot.tolist(), [1.0 if k == idx else 0.0 for k in range(A)])
    s = rlt.FeatureData(state.reshape(1, 1, sd))
    a = rlt.FeatureData(torch.zeros(1, 1, A))
    r, nx, nt, pr = c.call("sample", m.sample_reward_next_state_terminal, s, a, w)
    c.check("the model's reward", abs(float(r) - float(state.sum()) * w.k) < 1e-4)
    c.check("next state from the drawn component", c.close(nx.reshape(-1), state[0], atol=1e-4))
    c.check("goes on as the model says, always where terminals do not count", nt == (1 if go or not term else 0))
    lo = np.array([-1.0 - rng.random() for _ in range(A)])
    hi = np.array([0.5 + rng.random() * 3 for _ in range(A)])
    for wide, narrow in ((0.25, 0.0), (0.1, 0.001)):
        m = planner(c, nets=[w], iters=3, pop=12, ens=1, elites=3, H=H, sd=sd, ad=A, term=term, gamma=gamma, alpha=wide, eps=narrow, hi=hi, lo=lo)
        w.seen.clear()
        out = c.call("continuous", m, rlt.FeatureData(state))
        acts = torch.stack([a.reshape(-1) for _, a in w.seen])
        c.check("candidates stay within the bounds", bool((acts >= torch.tensor(lo) - 1e-5).all()) and bool((acts <= torch.tensor(hi) + 1e-5).all()))
        c.check("the action is in the training range", tuple(out.shape) == (A,) and bool((out >= -1).all()) and bool((out <= 1).all()))
    # the best plan is found: the reward rises with the first action
    if H == 1 and w.k == 0:
        m = planner(c, nets=[w], iters=20, pop=40, ens=1, elites=5, H=1, sd=sd, ad=A, term=term, gamma=gamma, alpha=0.1, eps=0.0, hi=hi, lo=lo)
        c.check("the plan moves to the better actions", float(c.call("improve", m, rlt.FeatureData(state))[0]) > 0.5)
