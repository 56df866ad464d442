"""P46: replayed experience exported for offline training is every transition, once, as it happened."""
import math

import numpy as np
import torch
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.utils import _dense_to_sparse, replay_buffer_to_pre_timeline_df
from vf.contracts._common import *
from vf.runner import contract

U_ = "reagent/replay_memory/utils.py:"
R_ = "reagent/replay_memory/circular_replay_buffer.py:ReplayBuffer."


def one(x):
    return one(x[0]) if isinstance(x, (list, tuple)) and len(x) == 1 else x


@contract("P46", "export", under=[U_ + "replay_buffer_to_pre_timeline_df", U_ + "_dense_to_sparse", R_ + "sample_all_valid_transitions"], bounded=True, quick=80, bound="up to 6 episodes of up to 5 steps, buffers that keep all or the last few steps")
def export(c):
    discrete = c.choice("discrete", [True, False])
    w, k = c.int("state width", 1, 3), c.int("action width", 1, 3)
    eps = [c.int(f"steps{e}", 1, 5) for e in range(c.int("episodes", 1, 6))]
    unfinished = c.choice("last episode unfinished", [False, True])
    total = sum(eps)
    keep = c.choice("buffer keeps all", [True, False])
    cap = total + 8 if keep else max(3, total // 2)
    torch.manual_seed(c.int("seed", 0, 10 ** 6))
    g = np.random.RandomState(c.int("np seed", 0, 10 ** 6))
    buf = c.call("construct", ReplayBuffer, replay_capacity=cap, batch_size=c.int("batch", 1, 4))
    log, size = {}, 0
    for e, m in enumerate(eps):
        for t in range(m):
            s = g.randint(-9, 10, w).astype(np.float32) / 2
            a = np.int64(g.randint(0, 4)) if discrete else g.randint(-9, 10, k).astype(np.float32) / 4
            r, lp = float(g.randint(-20, 20)) / 4, float(np.float32(-g.rand()))
            end = t == m - 1 and not (unfinished and e == len(eps) - 1)
            buf.add(observation=s, action=a, reward=r, terminal=end, mdp_id=e, sequence_number=t, log_prob=lp)
            log[e, t] = (s, a, r, lp, end)
            size += 1
    df = c.call("export", replay_buffer_to_pre_timeline_df, discrete, buf)
    rows = df.to_dict("records")
    at = [(int(one(r["mdp_id"])), int(one(r["sequence_number"]))) for r in rows]
    c.check("no transition twice", len(set(at)) == len(at))
    c.check("only logged steps", all(x in log for x in at))
    if keep:
        last = max(log)
        c.same("every transition with a next step or an end", sorted(at), sorted(x for x in log if log[x][4] or x != last))
    else:
        held = buf.sample_all_valid_transitions()
        c.same("every transition the buffer still holds", sorted(at), sorted(zip(held.mdp_id.flatten().tolist(), held.sequence_number.flatten().tolist())))
    acts = sorted({int(log[x][1]) for x in at}) if discrete else None
    for x, r in zip(at, rows):
        s, a, rew, lp, end = log[x]
        c.same("its own state, every feature", r["state_features"], {i: float(v) for i, v in enumerate(s)})
        c.same("its own action", r["action"], str(int(a)) if discrete else {i: float(v) for i, v in enumerate(a)})
        c.same("its own reward", (r["reward"], r["metrics"]), (rew, {"reward": rew}))
        c.check("its own probability", abs(r["action_probability"] - math.exp(lp)) < 1e-6)
        if discrete:
            c.same("no actions after the end, all those seen before", list(r["possible_actions"]), [] if end else [str(z) for z in acts])
            c.same("as many marked possible", list(r["possible_actions_mask"]), [] if end else [1] * len(acts))
    c.check("all of one day", len({r["ds"] for r in rows}) <= 1)
