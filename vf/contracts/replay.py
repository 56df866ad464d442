import random
import types

import numpy as np
import torch
from reagent.replay_memory import circular_replay_buffer as crb
from reagent.replay_memory import prioritized_replay_buffer as prb
from reagent.replay_memory import sum_tree as stree
from vf.runner import contract
from vf.contracts._common import *

RB = "reagent/replay_memory/circular_replay_buffer.py:ReplayBuffer."
FIELDS = ("_replay_capacity", "_is_index_valid", "_num_valid_indices", "_num_transitions_in_current_episode", "add_count", "_store")


def item(t, obs=7.5, rew=0.5, act=1):
    return dict(observation=np.float32(obs), action=np.int64(act), reward=np.float32(rew), terminal=bool(t))


def outside(why):
    from vf.smt import Unsupported

    raise Unsupported(why)


def ready(c, S, H, cls=crb.ReplayBuffer, first=None, **kw):
    """an initialised buffer whose state is then replaced by an arbitrary one"""
    b = cls(stack_size=S, replay_capacity=64, batch_size=2, update_horizon=H, **kw)
    if not all(hasattr(b, f) for f in FIELDS):
        outside("the buffer's state is stored in other fields")
    b.initialize_buffer(**(first or item(False)))
    return b


# ------------------------------------------------------------------ P24
def validity(c, n, C, S, H, REAL, TERM):
    """which stored item may be sampled, by age (0 = newest): real, with its whole stack still
    stored, and either H newer items are stored or its episode ended within H steps"""

    def f(a):
        return c.And(
            c.lt(a, n),
            REAL(a),
            c.le(a, C - S),
            c.Or(c.le(H, a), *[c.And(c.le(k, a), TERM(a - k)) for k in range(H)]),
        )

    return f


def shape_inv(c, n, C, S, m, REAL, TERM, OBS):
    """(name, predicate of the age a): layout of the newest episodes in the buffer"""
    live = lambda a: c.And(c.le(0, a), c.lt(a, n), c.lt(a, C))
    return [
        ("the current episode is real and unfinished before its newest item", lambda a: c.Implies(c.And(live(a), c.lt(a, m)), c.And(REAL(a), c.Or(c.exacteq(a, 0), c.Not(TERM(a)))))),
        ("an episode is preceded by padding", lambda a: c.Implies(c.And(live(a), c.le(m, a), c.lt(a, m + S - 1)), c.And(c.Not(REAL(a)), c.Not(TERM(a))))),
        ("the padding is preceded by a terminal item", lambda a: c.Implies(c.And(live(a), c.exacteq(a, m + S - 1)), TERM(a))),
        ("padding is all zero", lambda a: c.Implies(c.And(live(a), c.Not(REAL(a))), c.And(c.exacteq(OBS(a), 0), c.Not(TERM(a))))),
        ("no stack reaches into an earlier episode", lambda a: c.Implies(c.And(live(a), REAL(a)), c.And(*[c.Implies(live(a + j), c.Not(TERM(a + j))) for j in range(1, S)]) if S > 1 else True)),
    ]


@contract("P24", "adding an item keeps the validity invariant", under=[RB + "add", RB + "_add", RB + "_add_transition", RB + "set_index_valid_status", RB + "cursor", RB + "is_empty", RB + "_add_zero_transition"], bound="stack sizes 1 to 3, horizons 1 to 3 (any capacity, any earlier history)", split=[("S", 3), ("H", 3)], quick=40)
def add_step(c):
    S, H = c.choice("S", [1, 2, 3]), c.choice("H", [1, 2, 3])
    if not c.sym:
        return history(c, S, H)
    import z3
    from vf import smt

    C = c.dim("C", S + H)
    new_term = c.choice("terminal", [False, True])
    m = c.int("m", 0)
    if c.choice("wrapped", [False, True]):
        cur, k = c.int("cur", 0), c.int("k", 1)
        c.assume(c.lt(cur, C))
        n = smt.mix(k, C, cur)
        c.assume(c.le(C, n))
    else:
        n = cur = c.int("cur", 0)
        c.assume(c.lt(cur, C))
    c.assume(c.And(c.le(m, n), c.Implies(c.lt(0, n), c.lt(0, m))))
    fn = {x: z3.Function(x, z3.IntSort(), s) for x, s in (("REAL", z3.BoolSort()), ("TERM", z3.BoolSort()), ("OBS", z3.RealSort()))}
    REAL, TERM, OBS = [lambda a, f=fn[x]: smt.S(f(smt._t(a))) for x in ("REAL", "TERM", "OBS")]
    for name, p in shape_inv(c, n, C, S, m, REAL, TERM, OBS):
        c.e.assume_forall([C], p)
        c.assume(p(0))
    age = lambda i: (cur - 1 - i) % C
    ok = validity(c, n, C, S, H, REAL, TERM)
    b = c.call("construct", ready, c, S, H)
    from vf.tensor import T, BOOL, F32

    b._replay_capacity = C
    b.add_count = n
    b._num_transitions_in_current_episode = m
    b._is_index_valid = T([C], lambda i: ok(age(i)), BOOL)
    # number of valid items: written as the sum over a window of slots around the cursor (outside it
    # nothing may change) plus the rest
    window = [j for j in range(-H, 2 * S - 1)]
    at = lambda j: (cur + j) % C
    bits = lambda f: sum((c.If(c.And(c.lt(j, C - H), f(at(j))), 1, 0) for j in window), 0)
    was = lambda i: ok(age(i))
    b._num_valid_indices = count = c.int("rest", 0) + bits(was)
    b._store = {
        "terminal": T([C], lambda i: TERM(age(i)), BOOL),
        "observation": T([C], lambda i: OBS(age(i)), F32),
        "action": T([C], lambda i: c.at(act0, i), torch.int64),
        "reward": T([C], lambda i: c.at(rew0, i), F32),
    }
    act0, rew0 = c.tensor("act", [C], "i", -9, 9), c.tensor("rew", [C])
    fresh = c.Or(c.exacteq(n, 0), TERM(0))
    if hasattr(b, "set_index_valid_status"):
        b.set_index_valid_status = lambda idx, is_valid: by_contract(c, b, C, idx, is_valid)
    c.call("add", b.add, **item(new_term))
    new = bool(fresh)  # decided by the code's own branch
    d = S if new else 1
    n2, m2 = n + d, (1 if new else m + 1)
    c.check("number of stored items", c.exacteq(b.add_count, n2))
    shift = lambda f, first: lambda a: c.If(c.exacteq(a, 0), first[0], c.If(c.lt(a, d), first[1], f(a - d))) if d > 1 else c.If(c.exacteq(a, 0), first[0], f(a - d))
    REAL2, TERM2, OBS2 = shift(REAL, (True, False)), shift(TERM, (new_term, False)), shift(OBS, (7.5, 0.0))
    cur2 = (cur + d) % C
    slot = lambda a: (cur2 - 1 - a) % C
    ok2 = validity(c, n2, C, S, H, REAL2, TERM2)
    c.forall("exactly the complete real items are valid for sampling", [C], lambda a: c.eq(c.at(b._is_index_valid, slot(a)), ok2(a)))
    c.forall("items end their episode where they did", [C], lambda a: c.Implies(c.lt(a, n2), c.eq(c.at(b._store["terminal"], slot(a)), TERM2(a))))
    c.forall("stored observations", [C], lambda a: c.Implies(c.lt(a, n2), c.exacteq(c.at(b._store["observation"], slot(a)), OBS2(a))))
    c.forall("stored actions and rewards", [C], lambda a: c.Implies(c.lt(a, n2), c.And(
        c.exacteq(c.at(b._store["action"], slot(a)), c.If(c.exacteq(a, 0), 1, c.If(c.lt(a, d), 0, c.at(act0, slot(a))))),
        c.exacteq(c.at(b._store["reward"], slot(a)), c.If(c.exacteq(a, 0), 0.5, c.If(c.lt(a, d), 0.0, c.at(rew0, slot(a))))))))
    is_ = lambda i: c.at(b._is_index_valid, i)
    c.forall("validity away from the cursor is kept", [C], lambda j: c.Implies(c.And(c.le(2 * S - 1, j), c.lt(j, C - H)), c.eq(is_(at(j)), was(at(j)))))
    c.check("the number of valid items follows their validity", c.exacteq(b._num_valid_indices - count, bits(is_) - bits(was)))
    for name, p in shape_inv(c, n2, C, S, m2, REAL2, TERM2, OBS2):
        c.forall(name, [C], p)


def by_contract(c, b, C, idx, is_valid):
    """set_index_valid_status as its own contract (below) describes it"""
    c.check("slot whose validity is set", c.And(c.le(0, idx), c.lt(idx, C)))
    v = b._is_index_valid
    b._num_valid_indices = b._num_valid_indices + (1 if is_valid else 0) - c.If(c.at(v, idx), 1, 0)
    v[idx] = is_valid


@contract("P24", "setting the validity of a slot", under=[RB + "set_index_valid_status"], split=[("is_valid", 2)])
def set_valid(c):
    C = c.dim("C")
    v = c.tensor("valid", [C], "b")
    idx = c.int("idx", 0)
    c.assume(c.lt(idx, C))
    to = c.choice("is_valid", [False, True])
    was = lambda i: c.eq(c.at(v0, i), True)
    v0 = v.clone()
    if c.sym:
        rest = c.int("rest", 0)
        n = rest + c.If(was(idx), 1, 0)  # at least the slot itself is counted
    else:
        n = int(v.sum())
    b = c.call("construct", ready, c, 1, 1)
    b._replay_capacity, b._is_index_valid, b._num_valid_indices = C, v, n
    c.call("set_index_valid_status", b.set_index_valid_status, idx, to)
    c.eqt("only this slot changes", b._is_index_valid, [C], lambda i: c.If(c.exacteq(i, idx), to, c.at(v0, i)))
    c.check("count", c.exacteq(b._num_valid_indices, n + (1 if to else 0) - c.If(was(idx), 1, 0)))


class Oracle:
    """the items handed to add, oldest first, with the padding the buffer documents"""

    def __init__(self, C, S, H):
        self.C, self.S, self.H, self.items = C, S, H, []

    def add(self, it):
        if not self.items or self.items[-1]["terminal"]:
            zero = {k: np.zeros_like(np.asarray(v)) for k, v in it.items()}
            self.items += [dict(zero, terminal=False, real=False) for _ in range(self.S - 1)]
        self.items.append(dict(it, real=True))

    def valid(self):
        """positions (not slots) of the items that may be sampled"""
        n, out = len(self.items), []
        for p in range(max(0, n - self.C), n):
            a = n - 1 - p
            if not self.items[p]["real"] or a > self.C - self.S:
                continue
            if a >= self.H or any(self.items[p + k]["terminal"] for k in range(min(a, self.H - 1) + 1)):
                out.append(p)
        return out


def history(c, S, H):
    C = S + H + c.int("extra", 0, 6)
    b = c.call("construct", crb.ReplayBuffer, stack_size=S, replay_capacity=C, batch_size=2, update_horizon=H)
    o = Oracle(C, S, H)
    pt = c.choice("pterm", [0.1, 0.3, 0.6])
    for t in range(c.int("adds", 1, 40)):
        it = item(c.real(f"t{t}", 0, 1) < pt, obs=1 + t, rew=t / 4, act=t % 5 + 1)
        c.call("add", b.add, **it)
        o.add(it)
        ok = o.valid()
        want = sorted(p % C for p in ok)
        c.same("exactly the complete real items are valid for sampling", [i for i in range(C) if bool(b.is_valid_transition(i))], want)
        c.same("number of items to sample from", int(b.size), len(want))
        if want:
            got = c.call("sample_all_valid_transitions", b.sample_all_valid_transitions)
            c.same("all valid transitions", sorted(got.indices.flatten().tolist()), want)
            c.same("their observations", [round(float(np.asarray(x).reshape(-1)[-1]), 3) for x in got.state.tolist()], [round(float(o.items[next(p for p in ok if p % C == i)]["observation"]), 3) for i in got.indices.flatten().tolist()])


@contract("P24", "the empty buffer", under=[RB + "__init__", RB + "size"])
def empty(c):
    S, H = c.choice("S", [1, 2, 3]), c.choice("H", [1, 2, 3])
    C = c.dim("C")
    small = bool(c.lt(C, S + H))
    b = c.call("construct", crb.ReplayBuffer, stack_size=S, replay_capacity=C, batch_size=2, update_horizon=H, expect=ValueError)
    c.same("too small a capacity is refused", isinstance(b, ValueError), small)
    if small:
        return
    c.checkeq("nothing to sample", b.size, 0)
    c.forall("no valid item", [C], lambda i: c.eq(c.at(b._is_index_valid, i), False)) if hasattr(b, "_is_index_valid") else None
    c.same("empty", bool(b.is_empty()), True)
    r = c.call("sample", b.sample_index_batch, 2, expect=RuntimeError)
    c.same("sampling from it is refused", isinstance(r, RuntimeError), True)


# ------------------------------------------------------------------ P25
def loaded(c, C, S, H, D=None, **kw):
    """a buffer with arbitrary contents in every slot"""
    obs = c.tensor("obs", [C] + ([D] if D else []))
    first = dict(item(False), observation=np.zeros([int(D)] if not c.sym else [3], dtype=np.float32) if D else np.float32(1), extra=np.float32(2.0))
    b = c.call("construct", ready, c, S, H, first=first, **kw)
    gamma = kw.get("gamma", 0.99)
    b._replay_capacity = C
    b._is_index_valid = c.tensor("valid", [C], "b")
    b._store = {"observation": obs, "action": c.tensor("act", [C], "i", 0, 5), "reward": c.tensor("rew", [C]), "terminal": c.tensor("term", [C], "b"), "extra": c.tensor("extra", [C])}
    b._num_valid_indices = c.int("count", 1) if c.sym else int(b._is_index_valid.sum())
    return b, dict(b._store)


def steps_spec(c, st, C, H, start):
    """items of the transition starting in a slot: up to its end of episode, at most H"""
    r = H
    for j in reversed(range(H - 1)):
        r = c.If(c.eq(c.at(st["terminal"], (start + j) % C), True), j + 1, r)
    return r


def stacked(c, x, st, key, C, S, slot, what, extra=()):
    """x[i] is the stack of the S items ending in slot(i), oldest first, on the last axis"""
    n = c.shape(x)[0]
    sh = [n] + list(extra) + ([S] if S > 1 else [])
    if S == 1 and not extra:
        sh = [n, 1]
        c.eqt(what, x, sh, lambda i, z: c.at(st[key], slot(i)))
    elif S == 1:
        c.eqt(what, x, sh, lambda i, *d: c.at(st[key], slot(i), *d))
    else:
        c.eqt(what, x, sh, lambda i, *d: c.at(st[key], (slot(i) - (S - 1 - d[-1])) % C, *d[:-1]))


@contract("P25", "a sampled batch of n-step transitions", under=[RB + "sample_transition_batch", RB + "_get_batch_for_indices", RB + "_get_stack_for_indices", RB + "_get_steps", RB + "_reduce_multi_step_reward"], bound="stack sizes 1 to 3, horizons 1 to 3 (any capacity, batch, contents and indices)", split=[("S", 3), ("H", 3), ("stack all", 2)])
def sampled(c):
    S, H = c.choice("S", [1, 2, 3]), c.choice("H", [1, 2, 3])
    allst = c.choice("stack all", [False, True])
    C, B, D = c.dim("C", S + H), c.dim("B"), c.dim("D")
    g = c.choice("gamma", [0.9, 0.5])
    b, st = loaded(c, C, S, H, D, gamma=g, return_everything_as_stack=allst)
    idx = c.tensor("idx", [B], "i", 0, C)
    out = c.call("sample", b.sample_transition_batch, batch_size=B, indices=idx)
    at = lambda i: c.at(idx, i)
    n = lambda i: steps_spec(c, st, C, H, at(i))
    nxt = lambda i: (at(i) + n(i)) % C
    c.eqt("indices", out.indices, [B, 1], lambda i, z: at(i))
    c.eqt("number of steps", out.step, [B, 1], lambda i, z: n(i))
    c.eqt("terminal: the episode ends within these steps", out.terminal, [B, 1], lambda i, z: c.eq(c.at(st["terminal"], (at(i) + n(i) - 1) % C), True))
    stacked(c, out.state, st, "observation", C, S, at, "state", [D])
    stacked(c, out.next_state, st, "observation", C, S, nxt, "next state", [D])
    for k in ("action", "extra"):
        stacked(c, getattr(out, k), st, k, C, S, at, k)
        stacked(c, getattr(out, "next_" + k), st, k, C, S, nxt, "next " + k)
    stacked(c, out.next_reward, st, "reward", C, S, nxt, "next reward")
    if allst:
        stacked(c, out.reward, st, "reward", C, S, at, "reward")
    else:
        c.eqt("reward: discounted sum over these steps", out.reward, [B, 1], lambda i, z: sum((c.If(c.lt(j, n(i)), c.at(st["reward"], (at(i) + j) % C) * g ** j, 0.0) for j in range(H)), 0.0))


@contract("P25", "timeline format", under=[RB + "sample_transition_batch", RB + "_get_batch_for_indices"], bound="batches of 2, stack sizes 1 to 2, horizons 1 to 3", split=[("S", 2), ("H", 3)])
def timeline(c):
    S, H = c.choice("S", [1, 2]), c.choice("H", [1, 2, 3])
    C, B = c.dim("C", S + H), 2
    b, st = loaded(c, C, S, H, return_as_timeline_format=True)
    idx = c.tensor("idx", [B], "i", 0, C)
    out = c.call("sample", b.sample_transition_batch, batch_size=B, indices=idx)
    for i in range(B):
        s = c.at(idx, i)
        n = steps_spec(c, st, C, H, s)
        for name, key, off in [("next_state", "observation", 1), ("next_action", "action", 1), ("reward", "reward", 0), ("next_reward", "reward", 1), ("next_extra", "extra", 1)]:
            x = getattr(out, name)[i]
            base = lambda k: (s + 1 + k) % C if name != "reward" else (s + k) % C
            c.check(f"{name}: one entry per step", c.exacteq(c.shape(x)[0], n))
            if S == 1:
                c.eqt(f"{name}: the items that follow", x, [n], lambda k: c.at(st[key], base(k)))
            else:
                c.eqt(f"{name}: the items that follow", x, [n, S], lambda k, d: c.at(st[key], (base(k) - (S - 1 - d)) % C))
        c.checkeq("number of steps", c.at(out.step, i, 0), n)


@contract("P25", "only valid items are drawn", under=[RB + "sample_index_batch", RB + "sample_all_valid_transitions"])
def drawn(c):
    C, B = c.dim("C", 2), c.dim("B")
    b, st = loaded(c, C, 1, 1)
    v = b._is_index_valid
    if c.sym:
        c.assume(c.Any(C, lambda i: c.eq(c.at(v, i), True)))
    elif not bool(v.any()):
        c.assume(False)
    x = c.call("sample_index_batch", b.sample_index_batch, B)
    c.eqshape("as many as asked", x, [B])
    c.forall("valid items only", [B], lambda i: c.And(c.le(0, c.at(x, i)), c.lt(c.at(x, i), C), c.eq(c.at(v, c.at(x, i)), True)))
    if not c.sym:
        n = int(v.sum())
        got = set(c.call("sample_index_batch", b.sample_index_batch, 40 * n + 40).tolist())
        c.same("every valid item can be drawn", got, set(v.nonzero().flatten().tolist()))


@contract("P25", "histories through the public interface", under=[RB + "add", RB + "sample_transition_batch", RB + "sample_all_valid_transitions", RB + "save", RB + "load"], bounded=True, quick=120, bound="up to 30 items, capacities up to 11, dense, id-list and id-score-list features")
def histories(c):
    import tempfile

    S = c.int("S", 1, 3)
    H = c.int("H", 1, 4)
    lists = S == 1 and c.bool("lists")
    C = S + H + c.int("extra", 0, 5)
    g = c.real("gamma", 0, 1)
    kw = dict(stack_size=S, replay_capacity=C, batch_size=3, update_horizon=H, gamma=g)
    b = c.call("construct", crb.ReplayBuffer, **kw)
    o = Oracle(C, S, H)
    ids = lambda n: [c.int(f"{n}.{k}", 1, 99) for k in range(c.int(f"n{n}", 0, 3))]
    for t in range(c.int("adds", 1, 30)):
        it = dict(item(c.real(f"t{t}", 0, 1) < 0.25, rew=c.real(f"r{t}", -2, 2), act=t % 7 + 1), observation=np.array([t + 1.0, -t], dtype=np.float32), mdp_id=np.int64(t // 3))
        full = dict(it)
        if lists:
            x, y = ids(f"x{t}"), ids(f"y{t}")
            full["ids"], full["scores"] = {"f": x}, {"h": (y, [v / 2 for v in y])}
        c.call("add", b.add, **full)
        o.add(full)
    if not lists and c.bool("restored"):
        with tempfile.TemporaryDirectory() as d:
            c.call("save", b.save, d, 5)
            b = c.call("construct", crb.ReplayBuffer, **kw)
            b.initialize_buffer(**full)
            c.call("load", b.load, d, 5)
        if c.bool("go on"):
            full = dict(full, observation=np.array([77.0, 78.0], dtype=np.float32), terminal=c.bool("last"))
            c.call("add", b.add, **full)
            o.add(full)
    ok = o.valid()
    c.same("number of items to sample from", int(b.size), len(ok))
    if not ok:
        return
    for out in (c.call("sample_all_valid_transitions", b.sample_all_valid_transitions), c.call("sample_transition_batch", b.sample_transition_batch)):
        rows = out.indices.flatten().tolist()
        bypos = {p % C: p for p in ok}
        c.same("valid items only", [i for i in rows if i not in bypos], [])
        for r, i in enumerate(rows):
            p = bypos.get(i)
            if p is None:
                continue
            n = next((k + 1 for k in range(H) if o.items[p + k]["terminal"]), H) if p + H > len(o.items) - 1 else next((k + 1 for k in range(H) if o.items[p + k]["terminal"]), H)
            ends = bool(o.items[p + n - 1]["terminal"])
            c.same("number of steps", int(out.step[r]), n)
            c.same("terminal", bool(out.terminal[r]), ends)
            c.checkeq("reward", float(out.reward[r]), sum(g ** k * float(o.items[p + k]["reward"]) for k in range(n)))
            st = lambda q, key: np.stack([np.asarray(o.items[q - S + 1 + k][key], dtype=float) for k in range(S)], -1)
            sq = lambda a: a[..., 0] if S == 1 else a
            c.same("state", out.state[r].tolist(), sq(st(p, "observation")).tolist())
            c.same("action", out.action[r].reshape(-1).tolist(), sq(st(p, "action")).reshape(-1).tolist())
            c.same("episode", out.mdp_id[r].reshape(-1).tolist(), sq(st(p, "mdp_id")).reshape(-1).tolist())
            if not ends:
                c.same("next state", out.next_state[r].tolist(), sq(st(p + n, "observation")).tolist())
                c.same("next action", out.next_action[r].reshape(-1).tolist(), sq(st(p + n, "action")).reshape(-1).tolist())
            if lists:
                cut = lambda off, v: v[off[r] : off[r + 1] if r + 1 < len(off) else None].tolist()
                off, v = out.ids["f"]
                c.same("id list", cut(off, v), list(o.items[p]["ids"]["f"]))
                off, v, w = out.scores["h"]
                c.same("id-score list", [cut(off, v), cut(off, w)], [list(z) for z in o.items[p]["scores"]["h"]])


# ------------------------------------------------------------------ P26
ST = "reagent/replay_memory/sum_tree.py:SumTree."


def tree(c, N):
    """a sum tree with arbitrary priorities whose inner nodes are sums of their children"""
    t = stree.SumTree(N)
    sizes = [len(l) for l in getattr(t, "nodes", [])]
    L = 1
    while L < N:
        L *= 2
    if sizes != [2 ** k for k in range(len(sizes))] or not sizes or sizes[-1] != L:
        outside("the tree is stored in another layout")
    if c.sym:
        p = [c.real(f"p{i}", 0, 8) for i in range(N)]
        level = p + [0.0] * (L - N)
        for k in reversed(range(len(sizes))):
            t.nodes[k] = np.array(level, dtype=object)
            level = [level[2 * j] + level[2 * j + 1] for j in range(len(level) // 2)]
    else:
        p = [c.int(f"p{i}", 0, 8) / 4 for i in range(N)]
        for i in c.src.rng.sample(range(N), N) if N > 1 else range(N):
            if c.src.rng.random() < 0.4:
                t.set(i, c.src.rng.randrange(5) / 4)
            t.set(i, p[i])
    return t, p


def nodes_ok(c, t, p, what):
    for i in range(len(p)):
        c.checkeq(f"{what}: leaf", t.get(i), p[i])
    for k in range(len(t.nodes) - 1):
        for j in range(len(t.nodes[k])):
            c.checkeq(f"{what}: every node is the sum of its children", t.nodes[k][j], t.nodes[k + 1][2 * j] + t.nodes[k + 1][2 * j + 1])


def picked(c, i, p, q, what):
    """leaf i is the one whose share of the total contains the fraction q"""
    tot = sum(p)
    i = int(i)
    c.check(what + ": an element of the tree", 0 <= i < len(p))
    if not 0 <= i < len(p):
        return
    before = sum(p[:i], 0.0)
    eps = 0 if c.sym else 1e-9
    c.check(what + ": never one without priority", c.lt(0, p[i]))
    c.check(what + ": its share of the total contains the query", c.And(c.le(before - eps, q * tot), c.Or(c.lt(q * tot, before + p[i] + eps), c.And(c.exacteq(q, 1), c.le(q * tot, before + p[i] + eps)))))


@contract("P26", "setting a priority", under=[ST + "set", ST + "get", ST + "__init__"], bound="1 to 6 elements (every priority)", split=[("N", 6)])
def tree_set(c):
    N = c.choice("N", [1, 2, 3, 4, 5, 6])
    t, p = tree(c, N)
    top = t.max_recorded_priority
    i = c.choice("i", list(range(N)))
    v = c.real("v", -2, 8)
    r = c.call("set", t.set, i, v, expect=ValueError)
    if isinstance(r, ValueError):
        c.check("refused only if negative", c.lt(v, 0))
        nodes_ok(c, t, p, "after a refusal")
        return
    c.check("negative priorities are refused", c.le(0, v))
    nodes_ok(c, t, p[:i] + [v] + p[i + 1 :], "after setting")
    c.checkeq("largest priority seen", t.max_recorded_priority, c.max(v, top))


@contract("P26", "sampling by a query value", under=[ST + "sample"], bound="1 to 6 elements (every priority, every query)", split=[("N", 6)])
def tree_sample(c):
    N = c.choice("N", [1, 2, 3, 4, 5, 6])
    t, p = tree(c, N)
    q = c.real("q", -1, 2)
    r = c.call("sample", t.sample, q, expect=Exception)
    if isinstance(r, Exception):
        c.check("refused only without priorities or outside [0, 1]", c.Or(c.exacteq(sum(p), 0), c.lt(q, 0), c.lt(1, q)))
        return
    c.check("queries outside [0, 1] are refused", c.And(c.le(0, q), c.le(q, 1)))
    picked(c, r, p, q, "sample")
    nodes_ok(c, t, p, "after sampling")


class Rnd:
    """stands for the random module: every draw is an arbitrary value of its range"""

    def __init__(self, c, tag):
        self.c, self.tag, self.draws = c, tag, []

    def random(self):
        v = self.c.real(f"{self.tag}{len(self.draws)}", 0, 1, hi_open=True)
        self.draws.append((0.0, 1.0, v))
        return v

    def uniform(self, a, b):
        f = self.c.real(f"{self.tag}{len(self.draws)}", 0, 1)
        v = a + (b - a) * f
        self.draws.append((a, b, v))
        return v


class swapped:
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


@contract("P26", "random and stratified sampling", under=[ST + "sample", ST + "stratified_sample"], bound="1 to 4 elements, 1 or 2 strata", split=[("N", 4), ("k", 2)])
def tree_strat(c):
    N = c.choice("N", [1, 2, 3, 4])
    k = c.choice("k", [1, 2])
    t, p = tree(c, N)
    rnd = Rnd(c, "u")
    if not hasattr(stree, "random"):
        outside("another source of randomness")
    with swapped(stree, random=rnd):
        r = c.call("stratified_sample", t.stratified_sample, k, expect=Exception)
        empty = isinstance(r, Exception)
        if not empty:
            one = c.call("sample", t.sample)
    if empty:
        c.checkeq("refused only without priorities", sum(p), 0)
        return
    if len(rnd.draws) != k + 1:
        outside("drawn in another way")
    c.same("one element per stratum", len(r), k)
    for j in range(k):
        a, b, v = rnd.draws[j]
        c.checkeq("stratum", a, j / k)
        c.checkeq("stratum", b, (j + 1) / k)
        picked(c, r[j], p, v, "stratified")
    picked(c, one, p, rnd.draws[k][2], "random")


@contract("P26", "long histories of priorities", under=[ST + "set", ST + "sample", ST + "stratified_sample"], bounded=True, quick=80, bound="up to 40 elements, 200 updates")
def tree_hist(c):
    N = c.int("N", 1, 40)
    t = c.call("construct", stree.SumTree, N)
    p = [0.0] * N
    rng = random.Random(c.int("seed", 0, 10 ** 6))
    for _ in range(c.int("updates", 0, 200)):
        i, v = rng.randrange(N), rng.choice([0.0, rng.randrange(1, 64) / 16])
        p[i] = v
        t.set(i, v)
    c.same("priorities", [float(t.get(i)) for i in range(N)], p)
    if not sum(p):
        r = c.call("sample", t.sample, expect=Exception)
        c.same("refused without priorities", isinstance(r, Exception), True)
        return
    for q in [0.0, 1.0] + [rng.random() for _ in range(20)]:
        picked(c, t.sample(q), p, q, "sample")
    for i in t.stratified_sample(rng.randrange(1, 30)) + [t.sample() for _ in range(20)]:
        c.check("never one without priority", i < N and p[i] > 0)


# ------------------------------------------------------------------ P27
PB = "reagent/replay_memory/prioritized_replay_buffer.py:PrioritizedReplayBuffer."


class Tree:
    """a sum tree by its contract: any element with priority can come back"""

    def __init__(self, c, n):
        self.c, self.n, self.draws = c, n, []

    def stratified_sample(self, k):
        self.first = [self.c.choice(f"first{j}", list(range(self.n))) for j in range(k)]
        return list(self.first)

    def sample(self, query_value=None):
        self.draws.append(self.c.choice(f"draw{len(self.draws)}", list(range(self.n))))
        return self.draws[-1]


@contract("P27", "only valid items are drawn by priority", under=[PB + "sample_index_batch"], bound="3 slots, batches of 1 or 2, up to 2 further attempts (every validity and every draw)", split=[("batch", 2), ("attempts", 3)])
def prio_draw(c):
    B = c.choice("batch", [1, 2])
    A = c.choice("attempts", [0, 1, 2])
    b = prb.PrioritizedReplayBuffer(1, 3, 2, max_sample_attempts=A)
    if not hasattr(b, "sum_tree"):
        outside("no sum tree")
    b.sum_tree = tr = Tree(c, 3)
    valid = [bool(c.bool(f"valid{i}")) for i in range(3)]
    b.is_valid_transition = lambda i: valid[int(i)]
    r = c.call("sample_index_batch", b.sample_index_batch, B, expect=RuntimeError)
    want, k = [], 0
    for i in tr.first:
        while not valid[i] and k < A:
            i = tr.draws[k] if k < len(tr.draws) else 0
            k += 1
        if not valid[i]:
            want = None
            break
        want.append(i)
    if want is None:
        c.same("refused when the attempts are used up", isinstance(r, RuntimeError), True)
        return
    c.same("no failure while attempts are left", isinstance(r, RuntimeError), False)
    c.same("valid elements, redrawn where invalid", [int(i) for i in r], want)


@contract("P27", "priorities of stored items", under=[PB + "_add", PB + "set_priority", PB + "get_priority", PB + "sample_transition_batch", PB + "sample_index_batch"], bounded=True, quick=80, bound="up to 30 items, capacities up to 9")
def prio_hist(c):
    S, H = c.int("S", 1, 2), c.int("H", 1, 3)
    C = S + H + c.int("extra", 0, 5)
    b = c.call("construct", prb.PrioritizedReplayBuffer, S, C, 3, update_horizon=H)
    o, pr = Oracle(C, S, H), [0.0] * C
    for t in range(c.int("adds", 1, 30)):
        it = dict(item(c.real(f"t{t}", 0, 1) < 0.3, obs=t + 1), priority=np.float32(c.int(f"p{t}", 0, 6) / 2))
        c.call("add", b.add, **it)
        n0 = len(o.items)
        o.add(it)
        for p in range(n0, len(o.items)):
            pr[p % C] = float(o.items[p]["priority"]) if o.items[p]["real"] else 0.0
        if c.real(f"u{t}", 0, 1) < 0.3:
            i, v = c.int(f"i{t}", 0, C - 1), c.int(f"v{t}", 0, 9) / 2
            if pr[i]:
                c.call("set_priority", b.set_priority, np.array([i], dtype=np.int32), np.array([v]))
                pr[i] = v
        c.same("priority of every slot", b.get_priority(np.arange(C, dtype=np.int32)).tolist(), pr)
    ok = {p % C: p for p in o.valid()}
    can = [i for i in ok if pr[i] > 0]
    if not can:
        return
    r = c.call("sample_transition_batch", b.sample_transition_batch, expect=RuntimeError)
    if isinstance(r, RuntimeError):
        # only allowed if the valid share of the priorities is negligible
        c.check("valid items are found", sum(pr[i] for i in can) < 0.05 * sum(pr))
        return
    rows = r.indices.flatten().tolist()
    c.same("valid items with priority only", [i for i in rows if i not in can], [])
    c.same("their priorities", r.sampling_probabilities.flatten().tolist(), [pr[i] for i in rows])
    c.same("their observations", [float(np.asarray(x).reshape(-1)[-1]) for x in r.state.tolist()], [float(o.items[ok[i]]["observation"]) for i in rows if i in ok])
