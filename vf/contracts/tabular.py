"""P37: tabular ground truth: value functions, policies and their training."""
import itertools
import os
import random
import tempfile

import torch
from reagent.ope.estimators.sequential_estimators import RewardProbability, State, Transition
from reagent.ope.estimators.types import Action, ActionSpace
from reagent.ope.test.envs import Environment, PolicyLogGenerator
from reagent.ope.trainers import rl_tabular_trainers as rt
from vf.runner import contract

R = "reagent/ope/trainers/rl_tabular_trainers.py:"


class Table(Environment):
    """a finite decision process given by its table: (state, action) -> {state: (reward, probability)}"""

    def __init__(self, n, terminal, table, horizon=-1):
        super().__init__(horizon)
        self._s = [State(i, is_terminal=i in terminal) for i in range(n)]
        self.table = table

    def reset(self, state=None):
        super().reset(state)
        return self.current_state

    def close(self):
        pass

    @property
    def observation_space(self):
        return self._s

    @property
    def states(self):
        return [s for s in self._s if not s.is_terminal]

    def next_state_reward_dist(self, state, action):
        return {self._s[k]: RewardProbability(r, p) for k, (r, p) in self.table[state.value, action.value].items()}


# decision processes without cycles: every transition leads to a later state
SHAPES = [
    (3, {2}, {(0, 0): {1: 1.0}, (0, 1): {1: 0.25, 2: 0.75}, (1, 0): {2: 1.0}, (1, 1): {2: 1.0}}),
    (4, {3}, {(0, 0): {1: 0.5, 2: 0.5}, (0, 1): {3: 1.0}, (1, 0): {3: 1.0}, (1, 1): {2: 1.0}, (2, 0): {3: 1.0}, (2, 1): {3: 1.0}}),
]


def process(c, shape, lo=-3, hi=3):
    n, term, tr = SHAPES[shape]
    t = {k: {s: (c.real(f"r{k[0]}{k[1]}{s}", lo, hi), p) for s, p in v.items()} for k, v in tr.items()}
    return Table(n, term, t), n, term


def exact(env, n, term, pol, gamma):
    """state values by backward induction over the later states"""
    v = {s: 0.0 for s in term}
    for s in reversed(range(n)):
        if s not in term:
            v[s] = sum(pol[s][a] * sum(p * (r + gamma * v[k]) for k, (r, p) in env.table[s, a].items()) for a in range(2))
    return v


@contract("P37", "values of a policy", under=[R + "DPValueFunction._evaluate", R + "DPValueFunction.state_value", R + "TabularValueFunction.state_action_value", R + "TabularValueFunction._state_value", R + "TabularPolicy.action_dist"], split=[("shape", 2)], bound="2 decision processes without cycles of 3 and 4 states (any rewards), 3 policies and 3 discounts")
def dp(c):
    shape, gamma = c.choice("shape", [0, 1]), c.choice("gamma", [0.5, 1.0, 0.0])
    probs = c.choice("policy", [[0.5, 0.5], [1.0, 0.0], [0.25, 0.75]])
    env, n, term = process(c, shape)
    pol = rt.TabularPolicy(ActionSpace(2))
    for s in env.states:
        pol.update(s, probs)
    thr = 0.001
    vf = c.call("construct", rt.DPValueFunction, pol, env, gamma, thr)
    v = {s: c.call("value", vf.state_value, env._s[s]) for s in range(n)}
    for s in range(n):
        if s in term:
            c.checkeq("final states are worth nothing", v[s], 0.0)
            continue
        back = sum(probs[a] * sum(p * (r + gamma * v[k]) for k, (r, p) in env.table[s, a].items()) for a in range(2))
        d = v[s] - back
        c.check("the expected reward and discounted value of the next state, up to the threshold", c.And(c.le(-thr * 1.001, d), c.le(d, thr * 1.001)))
        for a in range(2):
            qa = c.call("value of an action", vf, env._s[s], Action(a))
            c.checkeq("value of an action", qa, sum(p * (r + gamma * v[k]) for k, (r, p) in env.table[s, a].items()))
    ex = exact(env, n, term, {s: probs for s in range(n)}, gamma)
    for s in range(n):
        c.check("close to the exact value", c.And(c.le(-n * 2 * thr, v[s] - ex[s]), c.le(v[s] - ex[s], n * 2 * thr)))


EPISODES = {
    "one": [[0, 1, 2]],
    "again": [[0, 1, 0, 1]],
    "stay": [[0, 0, 0]],
    "two": [[0, 1], [0, 1, 1, 0]],
    "mixed": [[0, 1, 0], [0], [0, 0, 1]],
}


def returns(c, eps, rew, gamma, first, key):
    """the returns that count for each state (or state and action)"""
    out = {}
    for e, ep in enumerate(eps):
        seen = set()
        for t in range(len(ep)):
            k = key(e, t)
            if first and k in seen:
                continue
            seen.add(k)
            g = 0.0
            for u in reversed(range(t, len(ep))):
                g = rew[e][u] + gamma * g
            out.setdefault(k, []).append(g)
    return out


def logs(eps, rew, acts):
    st = [State(i) for i in range(3)] + [State(9, is_terminal=True)]
    out = []
    for e, ep in enumerate(eps):
        tr = []
        for t, s in enumerate(ep):
            last = t == len(ep) - 1
            tr.append(Transition(last_state=st[s], action=Action(acts[e][t]), action_prob=0.5, state=st[3] if last else st[ep[t + 1]], reward=rew[e][t], status=Transition.Status.TERMINATED if last else Transition.Status.NORMAL))
        out.append(tr)
    return st, out


@contract("P37", "Monte Carlo values", under=[R + "MonteCarloValueFunction._state_value", R + "MonteCarloValueFunction._update_state_value", R + "MonteCarloValueFunction.state_value"], split=[("episodes", 5), ("first", 2)], bound="5 sets of up to 3 episodes of up to 4 steps (any rewards), 3 discounts")
def mc(c):
    eps = EPISODES[c.choice("episodes", list(EPISODES))]
    first, gamma = c.choice("first", [True, False]), c.choice("gamma", [0.5, 1.0, 0.0])
    rew = [[c.real(f"r{e}{t}", -3, 3) for t in range(len(ep))] for e, ep in enumerate(eps)]
    st, runs = logs(eps, rew, [[0] * len(e) for e in eps])
    env = Table(3, set(), {})
    pol = rt.TabularPolicy(ActionSpace(2))
    todo, asked = list(runs), []

    class Runs:
        """episodes as given"""

        def __init__(self, *a):
            pass

        def generate_log(self, init, *a):
            asked.append(init)
            return todo.pop(0)
    vf = c.call("construct", rt.MonteCarloValueFunction, pol, env, gamma, first, 10 ** 6, len(eps), inject={"PolicyLogGenerator": Runs})
    v = c.call("value", vf.state_value, st[0])
    c.same("one episode from the state per iteration", asked, [st[0]] * len(eps))
    want = returns(c, eps, rew, gamma, first, lambda e, t: eps[e][t])
    mean = lambda k: c.div(sum(want[k]), len(want[k]))
    c.checkeq("mean discounted return from the visits that count", v, mean(0))
    for k in want:
        vf._max_iteration = 0
        c.checkeq("of every state on the way", c.call("value", vf.state_value, st[k]), mean(k))


@contract("P37", "stopping after enough visits", under=[R + "MonteCarloValueFunction._state_value"], bounded=True, quick=30, bound="chains of up to 4 states")
def mc_stop(c):
    n, gamma, first = c.dim("n", 1, 4), c.choice("gamma", [0.5, 1.0]), c.choice("first", [True, False])
    lim = int(c.int("enough", 1, 6))
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    r = [round(rng.uniform(-2, 2), 2) for _ in range(n)]
    env = Table(n + 1, {n}, {(s, a): {s + 1: (r[s], 1.0)} for s in range(n) for a in range(2)})
    count = []

    class Counted(PolicyLogGenerator):
        def generate_log(self, *a):
            count.append(1)
            return super().generate_log(*a)
    vf = c.call("construct", rt.MonteCarloValueFunction, rt.TabularPolicy(ActionSpace(2)), env, gamma, first, lim, 50, inject={"PolicyLogGenerator": Counted})
    s0 = env._s[0]
    v = c.call("value", vf.state_value, s0)
    want = sum(r[k] * gamma ** k for k in range(n))
    c.check("the return of the only course there is", abs(v - want) < 1e-6)
    c.same("stops once a state has been visited often enough", len(count), lim)
    est = c.call("estimate", rt.EstimatedStateValueFunction, rt.TabularPolicy(ActionSpace(2)), env, gamma, 3)
    for s in range(n):
        c.check("estimated values are mean discounted returns", abs(est.state_value(env._s[s]) - sum(r[k] * gamma ** (k - s) for k in range(s, n))) < 1e-6)


def table(rng, n, terminal, acts, dag):
    t = {}
    for s in range(n):
        for a in range(acts):
            to = [k for k in range(n + 1) if (k > s or not dag)]
            to = rng.sample(to, min(len(to), rng.randint(1, 3)))
            w = [rng.randint(1, 4) for _ in to]
            t[s, a] = {k: (rng.randint(-8, 8) / 4.0, x / sum(w)) for k, x in zip(to, w)}
    return Table(n + 1, {n}, t)


@contract("P37", "policies and their training", under=[R + x for x in ("DPTrainer.train", "TabularPolicy.update", "TabularPolicy.action_dist", "TabularPolicy.save", "TabularPolicy.load", "DPValueFunction._evaluate", "DPValueFunction.reset")], bounded=True, quick=40, bound="random decision processes of up to 4 states and 3 actions, with and without cycles")
def training(c):
    n, A = c.dim("n", 1, 4), c.choice("A", [2, 3])
    gamma, eps = c.choice("gamma", [0.5, 0.8]), c.choice("epsilon", [0.0, 0.3])
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    env = table(rng, n, {n}, A, c.bool("acyclic"))
    pol = rt.TabularPolicy(ActionSpace(A), epsilon=eps)
    u = [float(x) for x in pol.action_dist(env._s[0]).values]
    c.check("uniform where nothing is known", all(abs(x - 1.0 / A) < 1e-6 for x in u))
    p1 = [1.0] + [0.0] * (A - 1)
    d = c.call("update", pol.update, env._s[0], p1)
    c.check("update reports the distance from the old distribution", abs(d - ((1 - 1 / A) ** 2 + (A - 1) / A ** 2) ** 0.5) < 1e-6)
    c.check("and from the last one", c.call("update", pol.update, env._s[0], p1) == 0)
    got = [float(x) for x in pol.action_dist(env._s[0]).values]
    c.check("explores with the given probability", all(abs(g - ((1 - eps) * x + eps / A)) < 1e-6 for g, x in zip(got, p1)))
    with tempfile.TemporaryDirectory() as dr:
        f = os.path.join(dr, "policy")
        c.check("saved", c.call("save", pol.save, f))
        other = rt.TabularPolicy(ActionSpace(c.choice("other A", [2, 3])), epsilon=c.choice("other epsilon", [0.0, 0.3]))
        c.check("loaded", c.call("load", other.load, f))
        c.check("a saved policy acts the same", [float(x) for x in other.action_dist(env._s[0]).values] == got)
        c.check("also where it knows nothing", [float(x) for x in other.action_dist(env._s[n]).values] == u)
        c.check("a missing file is reported", not other.load(os.path.join(dr, "none")))
    pol = rt.TabularPolicy(ActionSpace(A))
    vf = c.call("train", rt.DPTrainer(env, pol).train, gamma, 1e-9)
    # independent: iterate the optimality equation
    v = [0.0] * (n + 1)
    q = lambda s, a: sum(p * (r + gamma * v[k]) for k, (r, p) in env.table[s, a].items())
    for _ in range(400):
        for s in range(n):
            v[s] = max(q(s, a) for a in range(A))
    for s in range(n):
        c.check("the trained policy is worth as much as any", abs(vf(env._s[s]) - v[s]) < 1e-5)
        pr = [float(x) for x in pol.action_dist(env._s[s]).values]
        c.check("it takes best actions only", all(x < 1e-9 or q(s, a) > v[s] - 1e-5 for a, x in enumerate(pr)))
        for a in range(A):
            c.check("its value of an action", abs(vf(env._s[s], Action(a)) - q(s, a)) < 1e-5)
    c.check("final states are worth nothing", vf(env._s[n]) == 0)


@contract("P37", "Monte Carlo control", under=[R + "MonteCarloTrainer.train", R + "MonteCarloTrainer._update_state_value", R + "MonteCarloTrainer._update_policy"], bounded=True, quick=30, bound="given episodes of up to 5 steps over 2 states and 2 actions")
def control(c):
    first, gamma = c.choice("first", [True, False]), c.choice("gamma", [0.5, 1.0])
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    n, its = 2, int(c.int("iterations", 1, 3))
    env = Table(n + 1, {n}, {})
    pol = rt.TabularPolicy(ActionSpace(2))
    eps = [[rng.randint(0, 1) for _ in range(rng.randint(1, 5))] for _ in range(its * n)]
    acts = [[rng.randint(0, 1) for _ in e] for e in eps]
    rew = [[rng.randint(-4, 4) / 4 for _ in e] for e in eps]
    st, runs = logs(eps, rew, acts)
    runs2, asked = list(runs), []

    class Runs:
        def __init__(self, *a):
            pass

        def generate_log(self, init, *a):
            asked.append(init.value)
            return runs2.pop(0)
    tr = c.call("construct", rt.MonteCarloTrainer, env, pol, inject={"PolicyLogGenerator": Runs})
    c.call("train", tr.train, its, gamma, first, its)
    c.same("an episode from every state in every iteration", asked, [0, 1] * its)
    want = returns(c, eps, rew, gamma, first, lambda e, t: (eps[e][t], acts[e][t]))
    for s in range(n):
        tot = [sum(want.get((s, a), [0.0])) for a in range(2)]
        pr = [float(x) for x in pol.action_dist(env._s[s]).values]
        c.check("actions are preferred by their returns", abs(pr[0] - float(torch.softmax(torch.tensor(tot), 0)[0])) < 1e-5)
