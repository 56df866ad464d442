"""P35: episodes are recorded, stored and rewarded as they happened."""
import math
from collections import OrderedDict
from types import SimpleNamespace

import gym
import numpy as np
import reagent.types as rlt
import torch
from gym import spaces
from reagent.gym.agents import post_step as ps
from reagent.gym.agents.agent import Agent
from reagent.gym.agents import post_episode as pe
from reagent.gym.envs.env_wrapper import EnvWrapper
from reagent.gym.preprocessors import default_preprocessors as dp, replay_buffer_inserters as ri
from reagent.gym.runners import gymrunner
from reagent.gym.types import Trajectory, Transition
from reagent.gym import utils as gym_utils
from reagent.gym.utils import fill_replay_buffer
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from vf.runner import contract

R = "reagent/gym/runners/gymrunner.py:"
TY = "reagent/gym/types.py:"
AG = "reagent/gym/agents/"
EW = "reagent/gym/envs/env_wrapper.py:EnvWrapper."


def wrapper(env):
    """a registered-nowhere environment wrapper around the given environment"""
    frozen, EnvWrapper.REGISTRY_FROZEN = EnvWrapper.REGISTRY_FROZEN, False
    keys = set(EnvWrapper.REGISTRY)
    try:
        class Wrapped(EnvWrapper):
            def make(self):
                return env

            def obs_preprocessor(self, obs):
                return rlt.FeatureData(torch.tensor(obs).float().unsqueeze(0))

            def serving_obs_preprocessor(self, obs):
                raise NotImplementedError
        w = Wrapped.__new__(Wrapped)
        gym.core.Wrapper.__init__(w, env)
    finally:
        EnvWrapper.REGISTRY_FROZEN = frozen
        for k in set(EnvWrapper.REGISTRY) - keys:
            del EnvWrapper.REGISTRY[k]
    return w


class Spaces(gym.Env):
    """an environment of which only the spaces matter"""

    def __init__(self, action_space):
        self.action_space, self.observation_space = action_space, None


class Script:
    """an environment whose course is given"""

    def __init__(self, obs, rewards, length, masks=None):
        self.obs, self.rewards, self.length, self.masks = obs, rewards, length, masks
        self.t, self.actions, self.resets = None, [], 0
        self.max_steps = None

    @property
    def possible_actions_mask(self):
        return None if self.masks is None else self.masks[self.t]

    def reset(self):
        self.t = 0
        self.resets += 1
        return self.obs[0]

    def step(self, action):
        self.actions.append(action)
        self.t += 1
        return self.obs[self.t], self.rewards[self.t - 1], self.t >= self.length, {}


@contract("P35", "an episode", under=[R + "run_episode", TY + "Trajectory.add_transition", TY + "Trajectory.calculate_cumulative_reward", TY + "Trajectory.__getattr__"], objects=True, split=[("length", 4)],
          bound="episodes of up to 4 steps (any rewards and log-probabilities)")
def episode(c):
    L = c.choice("length", [1, 2, 3, 4])
    cap = c.choice("max_steps", [None, 0, 1, 2, 9])
    masked = c.choice("masks", [False, True])
    obs = [f"obs{t}" for t in range(L + 1)]
    masks = [f"mask{t}" for t in range(L + 1)] if masked else None
    rew = [c.real(f"r{t}", -5, 5) for t in range(L)]
    lps = [c.real(f"lp{t}", -5, 0) for t in range(L)]
    env = Script(obs, rew, L, masks)
    log = []

    class A:
        def act(self, o, mask=None):
            t = sum(1 for x in log if x[0] == "act")
            log.append(("act", o, mask))
            return f"action{t}", lps[t]

        def post_step(self, tr):
            log.append(("step", tr))

        def post_episode(self, traj):
            log.append(("episode", traj))

    traj = c.call("run_episode", gymrunner.run_episode, env, A(), mdp_id=7, max_steps=cap)
    n = L if cap is None else min(L, cap + 1)
    c.same("the episode ends with the environment, or at the step of the given number", len(traj), n)
    c.same("reset once", env.resets, 1)
    c.same("the agent's actions are carried out", env.actions, [f"action{t}" for t in range(n)])
    c.same("the agent sees the current observation and mask", [x[1:] for x in log if x[0] == "act"], [(obs[t], masks[t] if masked else None) for t in range(n)])
    c.same("each step is followed by the callback, the episode by the last", [x[0] for x in log], ["act", "step"] * n + ["episode"])
    c.check("the callbacks see the recorded transitions", all(a[1] is b for a, b in zip([x for x in log if x[0] == "step"], traj.transitions)) and log[-1][1] is traj)
    for t, tr in enumerate(traj.transitions):
        c.same("recorded step", (tr.mdp_id, tr.sequence_number, tr.observation, tr.action, bool(tr.terminal), tr.possible_actions_mask),
               (7, t, obs[t], f"action{t}", t == n - 1, masks[t] if masked else None))
        c.checkeq("recorded reward", tr.reward, rew[t])
        c.checkeq("recorded log-probability", tr.log_prob, lps[t])
    g = c.real("gamma", 0, 1)
    want, k = 0.0, 1.0
    for t in range(n):
        want, k = want + k * rew[t], k * g
    c.checkeq("discounted return", c.call("return", traj.calculate_cumulative_reward, g), want)
    c.checkeq("undiscounted return", c.call("return", traj.calculate_cumulative_reward), sum(rew[:n]))


@contract("P35", "optional fields of a trajectory", under=[TY + "Trajectory.add_transition", TY + "Transition.asdict"], bounded=True, quick=40, bound="up to 4 transitions")
def optional(c):
    n = c.int("n", 1, 4)
    tr = Trajectory()
    first, refused = None, False
    mk = lambda t, f: Transition(mdp_id=0, sequence_number=t, observation=t, action=t, reward=0.0, terminal=False, log_prob=-1.0 if f[0] else None, possible_actions_mask=np.ones(2) if f[1] else None)
    count = 0
    for t in range(n):
        f = (c.bool(f"log_prob{t}"), c.bool(f"mask{t}"))
        x = mk(t, f)
        c.same("absent fields are left out", set(x.asdict()), {"mdp_id", "sequence_number", "observation", "action", "reward", "terminal"} | ({"log_prob"} if f[0] else set()) | ({"possible_actions_mask"} if f[1] else set()))
        first = first or f
        try:
            tr.add_transition(x)
            ok = True
        except ValueError:
            ok = False
        c.check("transitions fill the same optional fields as the first, or are refused", ok == (f == first))
        count += f == first
        c.same("refused transitions are not recorded", len(tr), count)


@contract("P35", "acting", under=[AG + "agent.py:Agent.act", EW + "action_extractor", EW + "serving_action_extractor"])
def acting(c):
    n = c.dim("actions")
    kind = c.choice("action space", ["discrete", "slate"])
    a = c.tensor("action", [1, n])
    lp = c.tensor("log_prob", [1], lo=-5, hi=0)
    has = c.choice("log_prob given", [False, True])
    seen = []
    pol = SimpleNamespace(act=lambda o, m=None: seen.append((o, m)) or rlt.ActorOutput(action=a, log_prob=lp if has else None))
    env = Spaces(spaces.Discrete(2) if kind == "discrete" else spaces.MultiDiscrete([3, 3]))
    w = wrapper(env)
    ag = c.call("construct", lambda: Agent(pol, obs_preprocessor=lambda o: ("preprocessed", o), action_extractor=w.action_extractor))
    act, p = c.call("act", ag.act, "obs", "mask")
    c.same("the policy sees the preprocessed observation and the mask", seen, [(("preprocessed", "obs"), "mask")])
    if has:
        c.checkeq("log-probability of the action", p, c.at(lp, 0))
    else:
        c.check("no log-probability", p is None)
    if kind == "discrete":
        c.forall("discrete: the action marked in the row", [n], lambda j: c.le(c.at(a, 0, j), c.at(a, 0, c.scalar(act))))
    else:
        c.eqt("slate: the row", act, [n], lambda j: c.at(a, 0, j))
    act = c.call("extract for serving", w.serving_action_extractor, rlt.ActorOutput(action=a))
    if kind == "discrete":
        c.eqshape("serving: one action", act, [])
        c.forall("serving: the action marked in the row", [n], lambda j: c.le(c.at(a, 0, j), c.at(a, 0, c.scalar(act))))
    else:
        c.eqt("serving: the row of a slate", act, [n], lambda j: c.at(a, 0, j))


@contract("P35", "continuous actions are scaled to the environment's range", under=[EW + "action_extractor", EW + "serving_action_extractor", "reagent/training/utils.py:rescale_actions"])
def scaled(c):
    lo, hi = c.choice("range", [([-2.0], [2.0]), ([0.0, -3.0], [1.0, 5.0])])
    n = len(lo)
    tl, th = CONTINUOUS_TRAINING_ACTION_RANGE
    a = c.tensor("action", [1, n], lo=tl, hi=th)
    w = wrapper(Spaces(action_space=spaces.Box(np.array(lo, dtype=np.float32), np.array(hi, dtype=np.float32), dtype=np.float32)))
    got = c.call("extract", w.action_extractor, rlt.ActorOutput(action=a))
    c.eqshape("one action", got, [n])
    for j in range(n):
        c.checkeq("linear map of the training range onto the environment's", c.at(got, j), c.div(c.at(a, 0, j) - tl, th - tl) * (hi[j] - lo[j]) + lo[j])
    got = c.call("extract for serving", w.serving_action_extractor, rlt.ActorOutput(action=a))
    c.eqt("serving: already in the environment's range", got, [n], lambda j: c.at(a, 0, j))


@contract("P35", "normalization of an environment", under=["reagent/gym/utils.py:" + x for x in ("build_normalizer", "build_state_normalizer", "build_action_normalizer")], bounded=True, quick=30, bound="up to 5 features and actions")
def normalization(c):
    n, k = c.int("features", 1, 5), c.int("actions", 1, 5)
    vec = lambda name, m, at: np.array([c.int(f"{name}{i}", *at) / 4 for i in range(m)], dtype=np.float32)
    lo, hi, alo, ahi = vec("lo", n, (-9, 0)), vec("hi", n, (1, 9)), vec("alo", k, (-9, 0)), vec("ahi", k, (1, 9))
    kind = c.choice("actions are", ["discrete", "continuous"])
    env = Spaces(spaces.Discrete(k) if kind == "discrete" else spaces.Box(alo, ahi, dtype=np.float32))
    env.observation_space = spaces.Box(lo, hi, dtype=np.float32)
    got = c.call("build", gym_utils.build_normalizer, wrapper(env))
    c.same("of states and actions", sorted(got), ["action", "state"])
    rows = {x: [(f, p.feature_type, p.min_value, p.max_value) for f, p in got[x].dense_normalization_parameters.items()] for x in got}
    c.same("every state feature, in order, with its own range", rows["state"], [(i, "CONTINUOUS", float(lo[i]), float(hi[i])) for i in range(n)])
    c.same("every action, in order, with its own range", rows["action"], [(i, "DISCRETE_ACTION", None, None) for i in range(k)] if kind == "discrete" else [(i, "CONTINUOUS_ACTION", float(alo[i]), float(ahi[i])) for i in range(k)])


@contract("P35", "storing and training while acting", under=[AG + "post_step.py:add_replay_buffer_post_step", AG + "post_step.py:train_with_replay_buffer_post_step", AG + "post_episode.py:train_post_episode", AG + "agent.py:Agent.post_step", AG + "agent.py:Agent.post_episode"], bounded=True, quick=60,
          bound="up to 12 steps, training every 1 to 5 steps")
def training(c):
    n, every, bs = c.int("steps", 1, 12), c.int("every", 1, 5), c.int("batch", 1, 4)
    log = []
    size = [c.int("already stored", 4, 9)]

    class Buf:
        @property
        def size(self):
            return size[0]

        def sample_transition_batch(self, batch_size=None):
            log.append(("sample", batch_size, size[0]))
            return ("batch", len(log))

    def insert(buf, tr):
        log.append(("insert", tr))
        size[0] += 1

    trainer = SimpleNamespace(train=lambda b: log.append(("train", b)))
    post = c.call("make", ps.train_with_replay_buffer_post_step, Buf(), None, trainer, every, bs, trainer_preprocessor=lambda b: ("preprocessed", b), replay_buffer_inserter=insert)
    ep = []
    ag = Agent(None, post_transition_callback=post, post_episode_callback=ep.append)
    start = size[0]
    want = []
    for t in range(n):
        c.call("post_step", ag.post_step, f"transition{t}")
        want.append(("insert", f"transition{t}"))
        if t % every == 0:
            want.append(("sample", bs, start + t + 1))
            want.append(("train", ("preprocessed", ("batch", len(want)))))
    c.same("every transition is stored, then one batch trained at each training step", log, want)
    c.call("post_episode", ag.post_episode, "trajectory")
    c.same("the episode callback sees the trajectory", ep, ["trajectory"])
    quiet = Agent(None)
    quiet.post_step("x")
    quiet.post_episode("x")
    log.clear()
    c.call("store only", ps.add_replay_buffer_post_step(Buf(), None, replay_buffer_inserter=insert), "t")
    c.same("storing without training", log, [("insert", "t")])
    log.clear()
    made = []
    after = c.call("make", pe.train_post_episode, "env", trainer, False,
                   stub=[(pe.make_trainer_preprocessor_online, lambda *a: made.append(a) or (lambda tr: ("preprocessed", tr)))])
    c.call("after the episode", after, "trajectory")
    c.same("an episode is trained on once, preprocessed", log, [("train", ("preprocessed", "trajectory"))])
    c.check("the preprocessor is made for this trainer and environment", made and made[0][0] is trainer and "env" in made[0])


class Walk(gym.Env):
    """episodes of random length; observations count the steps"""

    def __init__(self, seed, longest, cap=None):
        self.g = np.random.RandomState(seed)
        self.longest = longest
        self.observation_space = spaces.Box(np.full(2, -9.0, dtype=np.float32), np.full(2, 9e9, dtype=np.float32), dtype=np.float32)
        self.action_space = spaces.Discrete(3)
        if cap is not None:
            self._max_episode_steps = cap
        self.e, self.steps, self.lengths = -1, [], []

    def reset(self):
        self.e += 1
        self.t = 0
        self.n = self.g.randint(1, self.longest + 1)
        self.lengths.append(self.n)
        return np.array([self.e, 0], dtype=np.float32)

    def step(self, a):
        self.t += 1
        r = float(self.g.randint(-3, 4))
        self.steps.append((self.e, self.t - 1, int(a), r))
        return np.array([self.e, self.t], dtype=np.float32), r, self.t >= self.n, {}


@contract("P35", "filling a replay buffer and evaluating", under=["reagent/gym/utils.py:fill_replay_buffer", R + "evaluate_for_n_episodes", R + "run_episode", "reagent/gym/preprocessors/replay_buffer_inserters.py:BasicReplayBufferInserter.__call__", EW + "max_steps", AG + "agent.py:Agent.create_for_env", AG + "agent.py:Agent.create_for_env_with_serving_policy"], bounded=True, quick=30,
          bound="buffers of up to 30 items, episodes of up to 6 steps")
def filling(c):
    np.random.seed(int(c.int("np seed", 0, 99)))
    seed = int(c.int("seed", 0, 10 ** 6))
    torch.manual_seed(seed)
    want = c.int("desired size", 1, 20)
    cap = c.choice("episode cap", [None, 3])
    env = Walk(seed, c.int("longest", 1, 6), cap)
    buf = ReplayBuffer(stack_size=1, replay_capacity=40, batch_size=1, update_horizon=1)
    w = wrapper(env)
    c.same("step limit of the environment", w.max_steps, cap)
    c.call("fill", fill_replay_buffer, w, buf, want)
    c.same("as many transitions as asked for", buf.size, want)
    c.same("all of the environment's steps", len(env.steps), want)
    k = 0
    for i in range(40):
        if buf.is_valid_transition(i):
            e, t, a, r = env.steps[k]
            k += 1
            b = buf.sample_transition_batch(1, torch.tensor([i]))
            c.check("the stored transition is the one made", b.state[0].tolist() == [e, t] and int(b.action) == a and float(b.reward) == r and int(b.mdp_id) == e and int(b.sequence_number) == t)
    gs = [1.0, 0.5]
    env = Walk(seed + 1, 4)
    w = wrapper(env)
    pol = SimpleNamespace(act=lambda o, m=None: rlt.ActorOutput(action=torch.tensor([[0.0, 1.0, 0.0]]), log_prob=torch.tensor([-1.0])))
    mine = c.choice("own hooks", [{}, {"obs_preprocessor": "mine"}, {"action_extractor": "mine"}])
    stub = SimpleNamespace(**{k: (lambda *a, k=k, **kw: k) for k in ("get_obs_preprocessor", "get_serving_obs_preprocessor", "get_action_extractor", "get_serving_action_extractor")})
    for make, s in ((Agent.create_for_env, ""), (Agent.create_for_env_with_serving_policy, "serving_")):
        ag = c.call("agent", make, stub, pol, **mine)
        c.same("the given hooks, else the environment's", [ag.obs_preprocessor, ag.action_extractor], [mine.get("obs_preprocessor", f"get_{s}obs_preprocessor"), mine.get("action_extractor", f"get_{s}action_extractor")])
        c.check("the given policy", ag.policy is pol)
    ag = Agent.create_for_env(w, pol)
    n = c.int("episodes", 1, 4)
    got = c.call("evaluate", gymrunner.evaluate_for_n_episodes, n, w, ag, gammas=gs, num_processes=1)
    c.same("a row per episode, a column per discount", got.shape, (n, 2))
    for e in range(n):
        rs = [r for q, _, a, r in env.steps if q == e]
        for j, g in enumerate(gs):
            c.checkeq("discounted return of each episode", got[e, j], sum(r * g ** t for t, r in enumerate(rs)))


@contract("P35", "recommendation environments", under=["reagent/gym/preprocessors/replay_buffer_inserters.py:RecSimReplayBufferInserter.create_for_env", "reagent/gym/preprocessors/replay_buffer_inserters.py:RecSimReplayBufferInserter.__call__", "reagent/gym/preprocessors/default_preprocessors.py:RecsimObsPreprocessor.create_from_env", "reagent/gym/preprocessors/default_preprocessors.py:RecsimObsPreprocessor.__call__"], bounded=True, quick=40,
          bound="up to 4 documents and 3 responses")
def recsim(c):
    nd, nr = c.int("docs", 1, 4), c.int("responses", 1, 3)
    flat = c.bool("flat documents")
    g = np.random.RandomState(int(c.int("seed", 0, 10 ** 6)))
    box = lambda *s: spaces.Box(-np.ones(s, dtype=np.float32), np.ones(s, dtype=np.float32), dtype=np.float32)
    doc = box(3) if flat else spaces.Dict({"zed": spaces.Discrete(3), "alpha": box(2), "score": spaces.Box(np.float32(-1), np.float32(1), shape=(), dtype=np.float32)})
    space = spaces.Dict({"user": box(2), "doc": spaces.Dict({str(i): doc for i in range(nd)}), "augmentation": spaces.Dict({str(i): spaces.Dict({"value": spaces.Box(np.float32(-1), np.float32(1), shape=(), dtype=np.float32)}) for i in range(nd)}),
                         "response": spaces.Tuple(tuple(spaces.Dict({"click": spaces.Discrete(2), "watch": box(2)}) for _ in range(nr)))})
    env = SimpleNamespace(observation_space=space, action_space=spaces.MultiDiscrete([nd] * nr))
    docs = OrderedDict((str(i), g.randn(3).astype(np.float32) if flat else {"zed": int(g.randint(3)), "alpha": g.randn(2).astype(np.float32), "score": np.float32(g.randn())}) for i in range(nd))
    val = OrderedDict((str(i), {"value": np.float32(g.randn())}) for i in range(nd))
    resp = None if c.bool("first observation") else [{"click": int(g.randint(2)), "watch": g.randn(2).astype(np.float32)} for _ in range(nr)]
    user = g.randn(2).astype(np.float32)
    obs = {"user": user, "doc": docs, "augmentation": val, "response": resp}
    ins = c.call("make inserter", ri.RecSimReplayBufferInserter.create_for_env, env)
    got = []
    c.call("insert", ins, SimpleNamespace(add=lambda **k: got.append(k)), Transition(mdp_id=3, sequence_number=1, observation=obs, action=np.arange(nr), reward=0.5, terminal=False, log_prob=-1.0))
    k = got[0]
    c.same("one row", len(got), 1)
    c.check("step fields are kept", k["mdp_id"] == 3 and k["sequence_number"] == 1 and k["reward"] == 0.5 and k["terminal"] is False and k["log_prob"] == -1.0 and list(k["action"]) == list(range(nr)))
    c.check("user features", np.array_equal(k["observation"], user))
    if flat:
        c.check("document features, in order", np.array_equal(k["doc"], np.stack(list(docs.values()))))
    else:
        for f in ("zed", "alpha", "score"):
            c.check("document features, in order", np.array_equal(k["doc_" + f], np.array([d[f] for d in docs.values()])))
    c.check("document values", np.array_equal(k["augmentation_value"], np.array([v["value"] for v in val.values()])))
    for f, shape in (("click", ()), ("watch", (2,))):
        want = np.zeros((nr,) + shape) if resp is None else np.array([r[f] for r in resp])
        c.check("responses by position, zero before the first", np.array_equal(k["response_" + f], want))
    pre = c.call("make preprocessor", dp.RecsimObsPreprocessor.create_from_env, env)
    out = c.call("preprocess", pre, obs)
    c.check("user features as a row", np.allclose(out.float_features.numpy(), user[None]))
    rows = []
    for d in docs.values():
        rows.append(list(d) if flat else [1.0 if d["zed"] == j else 0.0 for j in range(3)] + list(d["alpha"]) + [d["score"]])
    c.check("document rows: one-hot features first, then the others, by name", np.allclose(out.candidate_docs.float_features.numpy(), np.array(rows)[None]))
    c.check("document values as a row", np.allclose(out.candidate_docs.value.numpy(), np.array([[v["value"] for v in val.values()]])))


@contract("P35", "episodes as a stream of training batches", under=["reagent/gym/datasets/replay_buffer_dataset.py:ReplayBufferDataset.__init__", "reagent/gym/datasets/replay_buffer_dataset.py:ReplayBufferDataset.__iter__", "reagent/gym/datasets/replay_buffer_dataset.py:ReplayBufferDataset.create_for_trainer"], bounded=True, quick=80,
          bound="up to 4 episodes of up to 5 steps, training every 1 to 4 steps")
def stream(c):
    import contextlib
    import io

    from reagent.gym.datasets import replay_buffer_dataset as rd
    seed = int(c.int("seed", 0, 10 ** 6))
    rng = np.random.RandomState(seed)
    eps, every, bs, cap = c.int("episodes", 0, 4), c.int("every", 1, 4), c.int("batch", 1, 5), c.choice("max_steps", [None, 0, 1, 3])
    masked, size0, endless = c.choice("masks", [False, True]), c.int("already stored", 0, 4), c.choice("endless", [False, False, True])
    env = Walk(seed, 5)
    log, size = [], [size0]

    class Env:
        max_steps = None

        @property
        def possible_actions_mask(self):
            return (env.e, env.t) if masked else None

        def reset(self):
            return env.reset().tolist()

        def step(self, a):
            o, r, t, i = env.step(a)
            return o.tolist(), r, t, i

    class A:
        def act(self, obs, mask=None):
            a = int(rng.randint(3))
            log.append(("act", tuple(obs), mask, a))
            return a, -0.5 * a

    class Buf:
        @property
        def size(self):
            return size[0]

        def sample_transition_batch(self, batch_size=None):
            log.append(("sample", batch_size, size[0]))
            return ("batch", len(log))

    def insert(buf, tr):
        log.append(("insert", tr))
        size[0] += 1
    how = c.choice("preprocessor", ["none", "given", "made"])
    pre = lambda b: ("preprocessed", b)
    made, trainer, e, a, buf, device = [], object(), Env(), A(), Buf(), torch.device("cpu")
    kw = dict(batch_size=bs, training_frequency=every, num_episodes=None if endless else eps, max_steps=cap)
    if how == "none":
        ds = c.call("construct", rd.ReplayBufferDataset, e, a, buf, replay_buffer_inserter=insert, **kw)
    else:
        own = c.choice("inserter", [False, True])
        ds = c.call("construct", lambda: rd.ReplayBufferDataset.create_for_trainer(trainer, e, a, buf, trainer_preprocessor=pre if how == "given" else None, replay_buffer_inserter=insert if own else None, **kw),
                    stub=[(rd.make_replay_buffer_trainer_preprocessor, lambda *x: made.append(x) or pre), (rd.make_replay_buffer_inserter, lambda *x: made.append(x) or insert)])
        want = ([(trainer, device, e)] if how == "made" else []) + ([] if own else [(e,)])
        c.check("what is not given is made for this trainer and environment", len(made) == len(want) and all(len(x) == len(y) and all(p is q or p == q for p, q in zip(x, y)) for x, y in zip(made, want)))
    got = []

    def walk():
        with contextlib.redirect_stdout(io.StringIO()):
            for b in ds:
                got.append(b)
                log.append(("batch", b))
                if endless and (env.e >= 4 or len(got) > 20):
                    break
                if endless and len(log) > 400:
                    break
    if endless:
        size[0] = max(size[0], bs)  # otherwise nothing need ever come out
    start = size[0]
    c.call("iterate", walk)
    rows, trs = env.steps, [x[1] for x in log if x[0] == "insert"]
    acts = [x for x in log if x[0] == "act"]
    c.same("each step stored once", len(trs), len(rows))
    if not endless:
        c.same("the asked number of episodes", env.e + 1, int(eps))
    want, k = [], 0
    for i, ((ep, t, act, r), tr) in enumerate(zip(rows, trs)):
        last = i + 1 == len(rows) or rows[i + 1][0] != ep
        mask = (ep, t) if masked else None
        if not (endless and i + 1 == len(rows)):
            c.same("recorded end", bool(tr.terminal), last)
        c.same("recorded step", (tr.mdp_id, tr.sequence_number, tuple(tr.observation), tr.action, tr.reward, tr.log_prob, tr.possible_actions_mask), (ep, t, (float(ep), float(t)), act, r, -0.5 * act, mask))
        c.same("the agent sees the current observation and mask", acts[i], ("act", (float(ep), float(t)), mask, act))
        want += [acts[i], ("insert", tr)]
        if i % every == 0 and start + i + 1 >= bs:
            want.append(("sample", int(bs), start + i + 1))
            b = ("batch", len(want))
            want.append(("batch", b if how == "none" else ("preprocessed", b)))
        if last and i + 1 < len(rows) or (last and not endless):
            ended = env.lengths[ep]
            c.same("the episode ends with the environment, or at the step of the given number", t + 1, ended if cap is None else min(ended, cap + 1))
    c.same("a batch at every training step once there is enough, in time", log, want)
