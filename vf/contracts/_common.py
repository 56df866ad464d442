"""helpers shared by contracts"""
import types

import torch


class SymList(list):
    """list whose length is symbolic (names of a symbolic number of actions)"""

    def __init__(self, n, idx=None):
        super().__init__()
        self._n = n
        self._idx = idx or {}

    def __symlen__(self):
        return self._n

    def index(self, k):
        return self._idx[k]

    def __bool__(self):
        return True

    def __iter__(self):
        from vf.smt import Unsupported

        raise Unsupported("iteration over a symbolic list")


def names(c, n, idx=None):
    """action-name list of (possibly symbolic) length n; idx: name -> position"""
    if c.sym:
        return SymList(n, idx)
    l = [f"a{i}" for i in range(n)]
    for k, i in (idx or {}).items():
        l[i] = k
    return l


class Reporter:
    def __init__(self):
        self.logged = []

    def log(self, **kw):
        self.logged.append(kw)

    def flush(self, *a):
        pass


def prep(trainer, log_every=10 ** 9):
    """stand-ins for what pytorch-lightning / the reporter would provide"""
    trainer.__dict__["log"] = lambda *a, **k: None
    trainer._reporter = Reporter()
    trainer.trainer = types.SimpleNamespace(
        log_every_n_steps=log_every, logger=None, global_step=0, row_log_interval=log_every
    )
    trainer.logger = types.SimpleNamespace(
        experiment=types.SimpleNamespace(
            add_scalar=lambda *a, **k: None, add_histogram=lambda *a, **k: None, add_scalars=lambda *a, **k: None,
            add_text=lambda *a, **k: None,
        )
    ) if False else None
    return trainer


def mean2(c, B, f):
    return c.div(c.Sum(B, f), B)


def mse(c, B, pred, target):
    return c.div(c.Sum(B, lambda i: (pred(i) - target(i)) * (pred(i) - target(i))), B)


def huber1(c, d):
    a = c.abs(d)
    return c.If(c.lt(a, 1), 0.5 * d * d, a - 0.5)


def run_gen(gen):
    """drive a trainer generator the way the lightning module does"""
    return list(gen)


def softmax(c, n, score, possible=None, temp=1.0):
    """-> p(i, a): softmax of score(i, .)/temp over the possible entries of row i"""
    ok = possible or (lambda i, a: True)

    def p(i, a):
        if c.sym:
            e = lambda k: c.exp(c.div(score(i, k), temp))
            s = c.Sum(n, e, (lambda k: ok(i, k)) if possible else None)
            return c.If(ok(i, a), c.div(e(a), s), 0.0)
        import math
        xs = [float(score(i, k)) / float(temp) if ok(i, k) else -math.inf for k in range(n)]
        mx = max(xs)
        if mx == -math.inf or not ok(i, a):
            return 0.0
        return math.exp(xs[a] - mx) / sum(math.exp(x - mx) for x in xs)

    return p
