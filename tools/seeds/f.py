"""Planted bugs, batch f: P45, P46."""
COMMON = "import torch\n"
TY = COMMON + "from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace\n"
seed("p45-set-keeps-order", "P45", "reagent/ope/estimators/types.py",
     "            self._values[key] = value\n        self._reset()\n", "            self._values[key] = value\n            self._reset()\n",
     TY + '''
d = ActionDistribution({Action(7): 1.0, Action(3): 2.0})
assert d.greedy() == [Action(3)] and abs(d.probability(Action(7)) - 1 / 3) < 1e-9
d[Action(7)] = 6.0
assert d.greedy() == [Action(7)], d.greedy()
assert abs(d.probability(Action(7)) - 0.75) < 1e-9
''', "a map over named keys that was asked for its order or a probability before a value was set", "order and probabilities stay those of the old values")

seed("p45-workers-overwrite", "P45", "reagent/ope/estimators/estimator.py",
     "                for estimator_name, estimator_results in evaluation_result.items():\n                    if estimator_name in results:\n",
     "                for estimator_name, estimator_results in evaluation_result.items():\n                    if estimator_name in results and not estimator_results:\n",
     COMMON + '''
from reagent.ope.estimators import estimator as es
class E(es.Estimator):
    def evaluate(self, input, **kw):
        return es.EstimatorResult(input, 2 * input, 0.5)
class Here:
    def __init__(self, n):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def map(self, f, xs):
        return [f(x) for x in xs]
es.Pool = Here
exps = [([E()], float(x)) for x in range(5)]
for w in (0, 1, 2, 3):
    got = es.Evaluator(exps, w).evaluate()
    assert sorted(r.log_reward for r in got[repr(E())].results) == [0, 1, 2, 3, 4], (w, got)
''', "several workers that evaluate the same estimator", "the results of all but the last worker are lost")

seed("p45-replacement-shares-values", "P45", "reagent/ope/estimators/types.py",
     "        copy = deepcopy(self)\n        if isinstance(values, Tensor):\n            # pyre-fixme[16]: `Values` has no attribute `_values`.",
     "        copy = object.__new__(type(self))\n        copy.__dict__.update(self.__dict__)\n        if isinstance(values, Tensor):\n            # pyre-fixme[16]: `Values` has no attribute `_values`.",
     TY + '''
d = ActionDistribution([1.0, 2.0, 3.0])
e = d.replace({1: 9.0})
assert list(e.values) == [1.0, 9.0, 3.0]
assert list(d.values) == [1.0, 2.0, 3.0], d
''', "replacing some of the values by a mapping", "the map that was replaced changes too")

seed("p45-fill-order", "P45", "reagent/ope/estimators/types.py",
     "            ds = {}\n            for a in self._items:\n                if a in values:\n                    ds[a] = values[a]\n                else:\n                    ds[a] = 0.0\n            return ds\n",
     "            ds = {a: v for a, v in values.items() if a in self._reverse_lookup}\n            for a in self._items:\n                ds.setdefault(a, 0.0)\n            return ds\n",
     TY + '''
sp = ActionSpace([Action(5), Action(2), Action(9)])
d = sp.distribution({Action(9): 3.0, Action(5): 1.0})
assert [d[a] for a in sp] == [1.0, 0.0, 3.0]
assert list(d.values) == [1.0, 0.0, 3.0], d
assert [d.index_of(a) for a in sp] == [sp.index_of(a) for a in sp]
''', "values given as a map in another order than the space's", "places in the space and places in its distribution differ")

seed("p46-zero-features-dropped", "P46", "reagent/replay_memory/utils.py",
     "    return [{i: v.item() for i, v in enumerate(elem)} for elem in dense]", "    return [{i: v.item() for i, v in enumerate(elem) if v} for elem in dense]",
     COMMON + '''
import numpy as np
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.utils import replay_buffer_to_pre_timeline_df
b = ReplayBuffer(replay_capacity=8, batch_size=1)
b.add(observation=np.array([0.0, 2.0], dtype=np.float32), action=np.int64(1), reward=1.0, terminal=True, mdp_id=0, sequence_number=0, log_prob=0.0)
df = replay_buffer_to_pre_timeline_df(True, b)
assert df["state_features"][0] == {0: 0.0, 1: 2.0}, df["state_features"][0]
''', "a state feature that is exactly zero", "a present feature of value zero becomes a missing one")

seed("p46-actions-of-terminal", "P46", "reagent/replay_memory/utils.py",
     "        unique_actions = np.unique(batch.action)\n", "        unique_actions = np.unique(batch.action[~batch.terminal.squeeze(1).bool()])\n",
     COMMON + '''
import numpy as np
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.utils import replay_buffer_to_pre_timeline_df
b = ReplayBuffer(replay_capacity=8, batch_size=1)
for t in range(3):
    b.add(observation=np.array([float(t)], dtype=np.float32), action=np.int64(t), reward=1.0, terminal=t == 2, mdp_id=0, sequence_number=t, log_prob=0.0)
df = replay_buffer_to_pre_timeline_df(True, b)
for s, a in zip(df["state_features"], df["possible_actions"]):
    assert list(a) == ([] if s[0] == 2.0 else ["0", "1", "2"]), (s, a)
''', "an action that is only ever taken in the last step of an episode", "that action is not offered in any step")
