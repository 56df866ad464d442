"""Contract context: one contract body, two readings.

symbolic:  inputs are symbols, the real code runs on symbolic tensors, every
           obligation goes to the solver (all inputs, all sizes).
concrete:  inputs are drawn (seeded) or taken from a counter-model, the real
           code runs on real torch tensors, every obligation is evaluated.
"""
import itertools
import json
import math
import random
import time
import traceback
import zlib

import numpy as np
import torch

from . import engine, ops, patch, smt
from .smt import S, PathEnd, Unsupported, _t, z3
from .tensor import BOOL, F32, I64, OPS, Size, T, T_of, is_T, isint

Row = z3.DeclareSort("Row")


class Violation(Exception):
    pass


class Skip(Exception):
    """concrete draw outside the precondition"""


class Ctx:
    """shared front end; see Sym and Conc"""

    thorough = False

    sym = False

    # ---- training events: what is back-propagated and which optimizer steps
    def optimizer(self, name):
        """stand-in optimizer configuration: records instead of updating"""
        if not hasattr(self, "events"):
            self.events = []
            self.owned = {}
        ctx = self

        class Opt:
            param_groups = [{"lr": 0.1, "params": []}]

            def __init__(s, params=()):
                ctx.owned.setdefault(name, []).extend(list(params))

            def zero_grad(s, *a, **k):
                ctx.events.append(("zero", name, None))

            def step(s, closure=None):
                ctx.events.append(("step", name, closure() if closure else None))

        class Config:
            def make_optimizer(s, params):
                return Opt(params)

            make = Opt

        return Config()

    def steps(self, name, nets):
        """losses applied by each step of optimizer `name` (gradients accumulated since it was last
        cleared that reach one of the networks `nets`)"""
        out, acc = [], []
        for kind, who, x in self.events:
            if kind == "backward":
                if set(self.gradset(x)) & set(nets):
                    acc.append(x)
            elif who == name and kind == "zero":
                acc = []
            elif who == name and kind == "step":
                out.append(list(acc))
        return out

    def _copyname(self, name):
        n = name + "_copy"
        while n in self.nets:
            n += "_copy"
        return n

    # spec-language helpers --------------------------------------------------
    def If(self, c, a, b):
        raise NotImplementedError


# ============================================================== symbolic mode
def rowterms(body, last):
    """the largest row-valued subterms that do not mention `last`, in order of occurrence"""
    out, seen = [], set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.sort().eq(Row) and not any(p.eq(last) for p in engine.free_ph(t)):
            if not any(t.eq(o) for o in out):
                out.append(t)
            return
        for k in t.children():
            go(k)
    go(body)
    return out


class Sym(Ctx):
    sym = True

    def __init__(self, eng, report):
        self.e = eng
        self.report = report
        self.choices = []
        self.decl = []  # (kind, name, meta) in order, for replay
        self.names = set()
        self.nets = {}

    # ---- inputs
    def _nm(self, name):
        if name in self.names:
            raise RuntimeError(f"duplicate input {name}")
        self.names.add(name)
        return name

    fixed = {}

    def choice(self, name, options):
        options = list(options)
        if name in self.fixed:
            return options[self.fixed[name]]
        for i, o in enumerate(options[:-1]):
            b = z3.Bool(f"choice_{name}_{i}")
            if self.e.fork(b):
                self.choices.append((name, i))
                return o
        self.choices.append((name, len(options) - 1))
        return options[-1]

    def dim(self, name, lo=1, hi=None):
        self._nm(name)
        v = S(z3.Int(name))
        self.e.assume(smt.le(lo, v))
        if hi is not None:
            self.e.assume(smt.le(v, hi))
        self.decl.append(("dim", name))
        return v

    def int(self, name, lo=None, hi=None):
        self._nm(name)
        v = S(z3.Int(name))
        if lo is not None:
            self.e.assume(smt.le(lo, v))
        if hi is not None:
            self.e.assume(smt.le(v, hi))
        self.decl.append(("int", name))
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        self._nm(name)
        v = S(z3.Real(name))
        if lo is not None:
            self.e.assume(smt.lt(lo, v) if lo_open else smt.le(lo, v))
        if hi is not None:
            self.e.assume(smt.lt(v, hi) if hi_open else smt.le(v, hi))
        self.decl.append(("real", name))
        return v

    def bool(self, name):
        return S(z3.Bool(self._nm(name)))

    def tensor(self, name, shape, kind="f", lo=None, hi=None, dtype=None, gen=None, lo_open=False, hi_open=False):
        """kind: f real, i integer in [lo,hi), b bool, m 0/1-valued float mask"""
        self._nm(name)
        shape = [s for s in shape]
        rs = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort(), "m": z3.BoolSort()}[kind]
        if shape:
            f = z3.Function(name, *([z3.IntSort()] * len(shape)), rs)
            el = lambda *i: S(f(*[_t(q) for q in i]))
        else:
            c0 = z3.Const(name, rs)
            el = lambda: S(c0)
        if kind == "m":
            fn = lambda *i: smt.toreal(el(*i))
        else:
            fn = el
        if kind == "i":
            self.e.assume_forall(shape, lambda *i: smt.And(smt.le(lo, el(*i)) if lo is not None else True, smt.lt(el(*i), hi) if hi is not None else True))
        if kind == "f" and (lo is not None or hi is not None):
            self.e.assume_forall(
                shape,
                lambda *i: smt.And(
                    (smt.lt if lo_open else smt.le)(lo, el(*i)) if lo is not None else True,
                    (smt.lt if hi_open else smt.le)(el(*i), hi) if hi is not None else True,
                ),
                total=all(x is None or smt.is_num(x) for x in (lo, hi)) and (lo is None or hi is None or lo < hi),
            )
        d = dtype or {"f": F32, "i": I64, "b": BOOL, "m": F32}[kind]
        self.decl.append(("tensor", name))
        return T(shape, fn, d)

    def rows(self, name, lead, width=None):
        """feature tensor whose rows are opaque"""
        self._nm(name)
        lead = list(lead)
        f = z3.Function("row_" + name, *([z3.IntSort()] * len(lead)), Row)
        w = width if width is not None else S(z3.Int("W_" + name))
        if not isint(w):
            self.e.assume(smt.le(1, w))
        feat = smt.uf("feat", Row, z3.IntSort(), z3.RealSort())
        row = lambda *i: f(*[_t(q) for q in i])
        return T(lead + [w], lambda *i: S(feat(row(*i[:-1]), _t(i[-1]))), F32, row=row)

    def net(self, name, out, lo=None, hi=None, nargs=1, wrap=None, post=None, positive=False, width=None):
        """row-wise network: out[lead..., j...] = N(row(lead)..., j...)"""
        out = list(out)
        f = z3.Function("net_" + name, *([Row] * nargs), *([z3.IntSort()] * len(out)), z3.RealSort())
        e = self.e
        c = self

        class Net(torch.nn.Module):
            def __init__(s):
                super().__init__()
                s.calls = 0
                s.modes = []
                s.log = []
                s.p = torch.nn.Parameter(torch.zeros(1))

            def __deepcopy__(s, memo):
                return c.net(c._copyname(name), out, lo, hi, nargs, wrap, post, positive, width)

            def rowfns(s, args):
                fs, lead, g = [], None, frozenset()
                for a in args:
                    fd = getattr(a, "float_features", a) if not is_T(a) else a
                    fs.append(c.rowof(fd))
                    g = g | fd._g
                    if lead is None:
                        lead = list(fd._shape[:-1])
                return fs, lead, g

            def value(s, idx_lead, idx_out, fs):
                v = S(f(*[r(*idx_lead) for r in fs], *[_t(q) for q in idx_out]))
                return v

            def forward(s, *args, **kw):
                s.calls += 1
                s.modes.append(s.training)
                s.log.append([getattr(a, "float_features", a) if not is_T(a) else a for a in args])
                fs, lead, g = s.rowfns(args)
                if len(fs) != nargs:
                    raise Unsupported(f"network {name}: {len(fs)} inputs, contract has {nargs}")
                n = len(lead)
                if lo is not None or hi is not None or positive:
                    dims = lead + out

                    def ax(*i):
                        v = s.value(i[:n], i[n:], fs)
                        return smt.And(
                            smt.le(lo, v) if lo is not None else True,
                            smt.le(v, hi) if hi is not None else True,
                            smt.lt(0, v) if positive else True,
                        )

                    e.assume_forall(dims, ax)
                r = T(lead + out, lambda *i: s.value(i[:n], i[n:], fs), F32, g | frozenset([(name, len(s.log) - 1)]))
                return wrap(r) if wrap else r

            def spec(s, *rows_and_idx):
                """spec-side value: rows given as (tensor, lead idx) pairs"""
                raise NotImplementedError

        self.nets[name] = Net()
        return self.nets[name]

    def netval(self, net_name, rows, j=()):
        """spec-side N(rows..., j...): rows = [(tensor, lead idx), ...]"""
        j = j if isinstance(j, (tuple, list)) else (j,)
        rs = []
        for t, i in rows:
            t = getattr(t, "float_features", t) if not is_T(t) else t
            i = i if isinstance(i, (tuple, list)) else (i,)
            rs.append(self.rowof(t)(*i))
        f = z3.Function("net_" + net_name, *([Row] * len(rs)), *([z3.IntSort()] * len(j)), z3.RealSort())
        return S(f(*rs, *[_t(q) for q in j]))

    def rowof(self, t):
        """opaque row of a feature tensor; rows of computed tensors are named by
        their defining expression, so equal expressions give equal rows"""
        if t._row is not None:
            return t._row
        n = t.ndim - 1
        ph = [z3.Int(f"ph!r{k}") for k in range(n + 1)]
        body = z3.simplify(smt._arith(t.at(*[S(p) for p in ph])))
        # the row depends on its place only through the rows it is made from:
        # they become parameters, so rows made alike from equal rows are equal
        srcs = rowterms(body, ph[-1])
        srcs = [r for r in srcs if engine.free_ph(r)]
        rv = [z3.Const(f"ph!R{k}", Row) for k in range(len(srcs))]
        body = z3.substitute(body, *zip(srcs, rv)) if srcs else body
        params = [p for p in engine.free_ph(body) if not p.eq(ph[-1]) and not any(p.eq(q) for q in rv)]
        key = (body.get_id(), len(params), len(rv))
        reg = self.e.__dict__.setdefault("rowkeys", {})
        if self.e.rowpath is not self.e.pc:
            reg.clear()
            self.e.rowpath = self.e.pc
        if key not in reg:
            nm = f"rowfn!{len(reg)}"
            sorts = [z3.IntSort()] * len(params) + [Row] * len(rv)
            reg[key] = (z3.Function(nm, *sorts, Row) if sorts else z3.Const(nm, Row), body)
        f = reg[key][0]
        pos = [next(k for k, q in enumerate(ph) if q.eq(p)) for p in params]

        def row(*i):
            if not pos and not srcs:
                return f
            sub = [(ph[k], _t(i[k])) for k in range(n)]
            return f(*[_t(i[k]) for k in pos], *[z3.substitute(r, *sub) for r in srcs])
        t._row = row
        return row

    def featval(self, rows, j):
        feat = smt.uf("feat", Row, z3.IntSort(), z3.RealSort())
        t, i = rows
        i = i if isinstance(i, (tuple, list)) else (i,)
        return S(feat(t._row(*i), _t(j)))

    # ---- assumptions
    def assume(self, c):
        self.e.assume(c)

    def assume_forall(self, dims, f):
        self.e.assume_forall(dims, f)

    # ---- spec language
    If = staticmethod(lambda c, a, b: smt.ite(c, a, b))
    And = staticmethod(smt.And)
    Or = staticmethod(smt.Or)
    Not = staticmethod(smt.lnot)
    Implies = staticmethod(smt.implies)
    eq = staticmethod(smt.eq)
    Sum = staticmethod(engine.Sum)
    Prod = staticmethod(engine.Prod)
    Max = staticmethod(engine.Max)
    Min = staticmethod(engine.Min)
    ArgMax = staticmethod(engine.ArgMax)
    ArgMin = staticmethod(engine.ArgMin)
    All = staticmethod(engine.All)
    Any = staticmethod(engine.Any)
    exp = staticmethod(smt.exp)
    log = staticmethod(smt.log)
    sqrt = staticmethod(smt.sqrt)
    pow = staticmethod(smt.power)
    floor = staticmethod(smt.floor)
    ceil = staticmethod(smt.ceil)
    max = staticmethod(smt.smax)
    min = staticmethod(smt.smin)
    le = staticmethod(smt.le)
    lt = staticmethod(smt.lt)
    exacteq = staticmethod(smt.eq)

    @staticmethod
    def div(a, b):
        return smt.div(a, b)

    @staticmethod
    def abs(a):
        return smt.ite(smt.le(0, a), a, smt.neg(a))

    def fn(self, name, x):
        """named real function (sigmoid, tanh, softplus, ...)"""
        if smt.is_num(x):
            return CFN[name](x)
        if name == "atanh":
            return ops._atanh(x)
        return S(smt.rfun(name, x))

    def at(self, t, *i):
        if isinstance(t, S) or smt.is_num(t):
            return t
        return T_of(t).at(*i)

    def scalar(self, x):
        return T_of(x).item() if not (isinstance(x, S) or smt.is_num(x)) else x

    def shape(self, t):
        return list(T_of(t)._shape)

    def gradset(self, loss, nets=None):
        return sorted({n for n, _ in T_of(loss)._g})

    def gradsrc(self, loss, inputs):
        """{network@input} through which the loss has a gradient; inputs: label -> tensor"""
        out = set()
        for n, k in T_of(loss)._g:
            x = self.nets[n].log[k][0]
            lab = "?"
            for l, t in inputs.items():
                t = getattr(t, "float_features", t) if not is_T(t) else t
                if len(t._shape) != len(x._shape):
                    continue
                ph = [S(z3.Int(f"ph!r{k}")) for k in range(len(t._shape) - 1)]
                if self.rowof(t)(*ph).eq(self.rowof(x)(*ph)):
                    lab = l
            out.add(f"{n}@{lab}")
        return sorted(out)

    def meanbound(self, dims, n, f, lo, hi):
        """lemma (induction over the terms of the sum): a mean of values in
        [lo, hi] lies in [lo, hi]; the hypothesis is an obligation"""
        self.forall("mean bound lemma: every term in range", list(dims) + [n], lambda *i: smt.And(smt.le(lo, f(*i)), smt.le(f(*i), hi)))
        self.e.assume(smt.lt(0, n)) if not smt.is_num(n) else None

        def ax(*i):
            m = smt.div(engine.Sum(n, lambda k: f(*i, k)), n)
            return smt.And(smt.le(lo, m), smt.le(m, hi))

        self.e.assume_forall(list(dims), ax)

    # ---- running the code
    def call(self, what, fn, *a, inject=None, expect=None, stub=None, objects=False, **k):
        T.events = getattr(self, "events", None)
        with patch.symbolic(inject=inject, stub=stub, objects=objects):
            try:
                return fn(*a, **k)
            except (Unsupported, PathEnd):
                raise
            except NotImplementedError:
                raise Unsupported("NotImplementedError raised by the code")
            except RecursionError:
                raise Unsupported("recursion depth")
            except Exception as ex:
                if __import__("os").environ.get("VF_TB"):
                    traceback.print_exc()
                tb = traceback.extract_tb(ex.__traceback__)
                inrepo = [f for f in tb if "/reagent/" in f.filename]
                last = tb[-1]
                if expect and isinstance(ex, expect):
                    return ex
                if "/vf/" in last.filename and isinstance(
                    ex, (AttributeError, TypeError, AssertionError, ValueError, KeyError, NameError)
                ):
                    # engine limitation rather than behaviour of the code
                    raise Unsupported(f"{type(ex).__name__}: {ex} at {last.filename}:{last.lineno}")
                if "/vf/" not in last.filename and "/reagent/" not in last.filename and not isinstance(ex, (IndexError, RuntimeError)):
                    raise Unsupported(f"library code: {type(ex).__name__}: {ex} at {last.filename}:{last.lineno}")
                self.report.obligation(self, f"{what}: no exception", False, (), note=f"{type(ex).__name__}: {ex}")
                raise PathEnd(f"exception {ex}")

    # ---- obligations
    def check(self, name, goal, skolem=()):
        self.report.obligation(self, name, goal, skolem)

    def forall(self, name, dims, f):
        vs = [self.e.fresh("k") for _ in dims]
        rng = smt.And(*[smt.And(S(v >= 0), smt.lt(S(v), n)) for v, n in zip(vs, dims)]) if dims else True
        # build the goal over placeholders, so that sums inside it are named by
        # the same functions as sums elsewhere; then take arbitrary indices
        ph = [z3.Int(f"ph!f{i}") for i in range(len(dims))]
        goal = smt.tobool(f(*[S(v) for v in ph]))
        if not smt.is_num(goal):
            goal = S(z3.substitute(goal.t, *zip(ph, vs))) if dims else goal
        self.report.obligation(self, name, smt.implies(rng, goal), tuple(vs), hyp=rng)

    def eqshape(self, name, t, shape):
        sh = self.shape(t)
        if len(sh) != len(shape):
            self.check(name + ": rank", False)
            return False
        self.check(name + ": shape", smt.And(*[smt.eq(a, b) for a, b in zip(sh, shape)]) if sh else True)
        return True

    def eqt(self, name, t, shape, f):
        """tensor t has this shape and t[i] == f(i) for every index"""
        if not self.eqshape(name, t, shape):
            return
        t = T_of(t)
        self.forall(name, shape, lambda *i: smt.eq(t.at(*i), f(*i)))

    def checkeq(self, name, got, want, skolem=()):
        self.check(name, smt.eq(got, want), skolem)

    def same(self, name, a, b):
        self.check(name, a == b)

    def finish(self):
        for what, dims, f in getattr(self.e, "wd", []):
            self.forall(f"{what} in range", dims, f)
        self.e.wd = []


CFN = {
    "log": math.log,
    "sqrt": math.sqrt,
    "log1p": math.log1p,
    "exp": math.exp,
    "cos": math.cos,
    "sin": math.sin,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)),
    "tanh": math.tanh,
    "softplus": lambda x: math.log1p(math.exp(x)) if x < 50 else x,
    "atanh": math.atanh,
    "erf": math.erf,
}


# ============================================================== concrete mode
class Source:
    """draws values; everything drawn is recorded so that it can be replayed"""

    def __init__(self, seed, fixed=None, size=1):
        self.rng = random.Random(seed)
        self.fixed = fixed or {}
        self.rec = {}
        self.size = size

    def get(self, name, draw):
        if name in self.rec:
            return self.rec[name]
        if name in self.fixed:
            v = self.fixed[name]
        else:
            v = draw(self.rng)
        self.rec[name] = v
        return v


class Conc(Ctx):
    tol = 2e-4

    def __init__(self, src, model=None, choices=None):
        self.src = src
        self.model = model  # z3 model or None
        self.fails = []
        self.nobl = 0
        self.choices_fixed = dict(choices or [])
        self.nets = {}
        self.rowreg = {}
        self.widths = {}
        self.cfgname = {}

    # ---- inputs
    def choice(self, name, options):
        options = list(options)
        i = self.choices_fixed.get(name)
        i = self.src.get("choice:" + name, (lambda r: i) if i is not None else (lambda r: r.randrange(len(options))))
        return options[i]

    def _mval(self, term, default=0):
        v = self.model.eval(term, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(12).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return default

    def dim(self, name, lo=1, hi=None):
        def draw(r):
            if self.model is not None:
                return self._mval(z3.Int(name))
            h = lo + 4 if hi is None else min(hi, lo + 6)
            return r.choice([lo, r.randint(lo, h), r.randint(lo, h)])

        v = self.src.get(name, draw)
        if v > 64:
            raise Skip("dimension too large to replay")
        return v

    def int(self, name, lo=None, hi=None):
        def draw(r):
            if self.model is not None:
                return self._mval(z3.Int(name))
            a = lo if lo is not None else -5
            b = hi if hi is not None else a + 10
            return r.randint(a, b)

        return self.src.get(name, draw)

    def _real(self, r, lo, hi, lo_open=False, hi_open=False):
        def ok(v):
            if lo is not None and (v < lo or (lo_open and v == lo)):
                return False
            if hi is not None and (v > hi or (hi_open and v == hi)):
                return False
            return True

        for _ in range(50):
            m = r.random()
            if m < 0.35:
                v = r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.25] + [float(q) for q in (lo, hi) if q is not None and abs(q) <= 1e3])
            elif lo is not None and hi is not None and hi - lo <= 1e4:
                v = lo + (hi - lo) * r.random()
            elif lo is not None and lo > -1e3:
                v = lo + abs(r.gauss(0, 2))
            elif hi is not None and hi < 1e3:
                v = hi - abs(r.gauss(0, 2))
            else:
                v = r.gauss(0, 2)
            v = round(v * 64) / 64 if (hi is None or lo is None or hi - lo >= 0.5) else v
            if ok(v):
                return float(v)
        v = lo if lo is not None else hi if hi is not None else 0.0
        if lo is not None and hi is not None:
            v = (lo + hi) / 2
        elif lo_open:
            v = lo + 0.5
        return float(v)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        def draw(r):
            if self.model is not None:
                return float(self._mval(z3.Real(name)))
            return self._real(r, lo, hi, lo_open, hi_open)

        return self.src.get(name, draw)

    def bool(self, name):
        def draw(r):
            if self.model is not None:
                return bool(self._mval(z3.Bool(name)))
            return r.random() < 0.5

        return self.src.get(name, draw)

    def tensor(self, name, shape, kind="f", lo=None, hi=None, dtype=None, gen=None, lo_open=False, hi_open=False):
        shape = [int(s) for s in shape]
        n = int(np.prod(shape)) if shape else 1

        def draw(r):
            if self.model is not None:
                rs = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort(), "m": z3.BoolSort()}[kind]
                out = []
                if shape:
                    f = z3.Function(name, *([z3.IntSort()] * len(shape)), rs)
                for idx in itertools.product(*[range(s) for s in shape]):
                    t = f(*[z3.IntVal(i) for i in idx]) if shape else z3.Const(name, rs)
                    v = self._mval(t)
                    out.append(bool(v) if kind in "bm" else v)
                return out
            if gen is not None:
                return [gen(r) for _ in range(n)]
            if kind == "f":
                return [self._real(r, lo, hi, lo_open, hi_open) for _ in range(n)]
            if kind == "i":
                a = lo if lo is not None else -3
                b = hi if hi is not None else a + 8
                if b <= a:
                    raise Skip("empty integer range")
                return [r.randrange(a, b) for _ in range(n)]
            p = r.choice([0.5, 0.5, 0.15, 0.85, 0.0, 1.0])
            return [r.random() < p for _ in range(n)]

        v = self.src.get(name, draw)
        d = dtype or {"f": F32, "i": I64, "b": BOOL, "m": F32}[kind]
        if len(v) != n:
            raise Skip("replay shape mismatch")
        return torch.tensor(v, dtype=torch.float64 if d == F32 else d).reshape(shape).to(d)

    W = 3

    def rows(self, name, lead, width=None):
        lead = [int(s) for s in lead]
        w = int(width) if width is not None else self.W
        n = int(np.prod(lead)) if lead else 1
        f = z3.Function("row_" + name, *([z3.IntSort()] * len(lead)), Row)

        def draw(r):
            out = []
            for idx in itertools.product(*[range(s) for s in lead]):
                if self.model is not None:
                    v = self.model.eval(f(*[z3.IntVal(i) for i in idx]), model_completion=True)
                    h = zlib.crc32(str(v).encode()) % 100003
                    out.append([h / 64.0] + [0.5 * ((h >> k) & 3) for k in range(1, w)])
                else:
                    out.append([round(r.uniform(-2, 2) * 64) / 64 for _ in range(w)])
            if self.model is None and len(out) > 1 and r.random() < 0.2:
                out[r.randrange(len(out))] = list(out[0])
            return out

        v = self.src.get(name, draw)
        t = torch.tensor(v, dtype=F32).reshape(lead + [w])
        if self.model is not None:
            for k, idx in enumerate(itertools.product(*[range(s) for s in lead])):
                val = self.model.eval(f(*[z3.IntVal(i) for i in idx]), model_completion=True)
                self.rowreg[t[idx].numpy().tobytes()] = val
            self.widths[w] = True
        return t

    def _netrow(self, name, nargs, rows, out, lo, hi, positive):
        """value table of one row (numpy array of shape out)"""
        key = b"|".join(np.asarray(r, dtype=np.float32).tobytes() for r in rows)
        tag = f"net:{name}:{zlib.crc32(key):08x}"
        v = self.src.get(tag, lambda r: self._netdraw(name, nargs, rows, key, out, lo, hi, positive).tolist())
        return np.asarray(v, dtype=float).reshape(out)

    def _netdraw(self, name, nargs, rows, key, out, lo, hi, positive):
        if self.model is not None:
            vals = []
            for r in rows:
                b = np.asarray(r, dtype=np.float32).tobytes()
                if b in self.rowreg:
                    vals.append(self.rowreg[b])
                else:
                    parts = [self.rowreg.get(b[i : i + 4 * self.W]) for i in range(0, len(b), 4 * self.W)]
                    if any(p is None for p in parts):
                        vals = None
                        break
                    pc = smt.uf(f"rowcat{len(parts)}", *([Row] * (len(parts) + 1)))
                    vals.append(self.model.eval(pc(*parts), model_completion=True))
            if vals is not None:
                f = z3.Function("net_" + name, *([Row] * nargs), *([z3.IntSort()] * len(out)), z3.RealSort())
                a = np.zeros(out)
                for idx in itertools.product(*[range(s) for s in out]):
                    a[idx] = self._mval(f(*vals, *[z3.IntVal(i) for i in idx]))
                return a
        r = random.Random(zlib.crc32(name.encode() + b"#" + key) ^ self.src.get("netseed", lambda r: r.randrange(1 << 30)))
        a = np.zeros(out)
        for idx in itertools.product(*[range(s) for s in out]):
            a[idx] = self._real(r, 0.0625 if positive and lo is None else lo, hi)
        return a

    def net(self, name, out, lo=None, hi=None, nargs=1, wrap=None, post=None, positive=False, width=None):
        out = [int(s) for s in out]
        c = self

        class Net(torch.nn.Module):
            def __init__(s):
                super().__init__()
                s.p = torch.nn.Parameter(torch.zeros(1))
                s.leaves = []
                s.calls = 0
                s.modes = []
                s.log = []

            def __deepcopy__(s, memo):
                return c.net(c._copyname(name), out, lo, hi, nargs, wrap, post, positive, width)

            def forward(s, *args, **kw):
                s.calls += 1
                s.modes.append(s.training)
                xs = [getattr(a, "float_features", a) if not isinstance(a, torch.Tensor) else a for a in args]
                s.log.append([x.detach().clone() for x in xs])
                leaf = torch.zeros(1, requires_grad=torch.is_grad_enabled())
                s.leaves.append(leaf)
                lead = list(xs[0].shape[:-1])
                a = np.zeros(lead + out)
                for idx in itertools.product(*[range(q) for q in lead]):
                    a[idx] = c._netrow(
                        name, nargs, [x[tuple(idx[: x.ndim - 1])].detach().numpy() for x in xs], out, lo, hi, positive
                    )
                r = torch.tensor(a, dtype=F32) + s.p * 0 + leaf
                for x in xs:
                    if x.requires_grad:
                        r = r + x.sum() * 0
                return wrap(r) if wrap else r

        n = Net()
        n._meta = (out, lo, hi, nargs, positive)
        self.nets[name] = n
        return n

    def netval(self, name, rows, j=()):
        j = j if isinstance(j, (tuple, list)) else (j,)
        out, lo, hi, nargs, positive = self.nets[name]._meta
        rs = []
        for t, i in rows:
            t = getattr(t, "float_features", t) if not isinstance(t, torch.Tensor) else t
            i = i if isinstance(i, (tuple, list)) else (i,)
            rs.append(t[tuple(i)].detach().numpy())
        a = self._netrow(name, nargs, rs, out, lo, hi, positive)
        return float(np.float32(a[tuple(int(q) for q in j)]))

    def featval(self, rows, j):
        t, i = rows
        i = i if isinstance(i, (tuple, list)) else (i,)
        return float(t[tuple(i)][j])

    def meanbound(self, *a):
        pass

    # ---- assumptions
    def assume(self, c):
        if not c:
            raise Skip("precondition")

    def assume_forall(self, dims, f):
        for i in itertools.product(*[range(int(d)) for d in dims]):
            if not f(*i):
                raise Skip("precondition")

    # ---- spec language
    If = staticmethod(lambda c, a, b: a if c else b)

    @staticmethod
    def And(*xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return any(bool(x) for x in xs)

    Not = staticmethod(lambda a: not a)
    Implies = staticmethod(lambda a, b: (not a) or bool(b))

    def eq(self, a, b):
        a, b = _py(a), _py(b)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(a) == bool(b) if isinstance(a, bool) and isinstance(b, bool) else float(a) == float(b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if a == b:
            return True
        if a != a and b != b:
            return True
        if a != a or b != b or abs(a) == math.inf or abs(b) == math.inf:
            return False
        return abs(a - b) <= self.tol * (1 + max(abs(a), abs(b)))

    @staticmethod
    def exacteq(a, b):
        return _py(a) == _py(b)

    @staticmethod
    def Sum(n, f, cond=None):
        return sum((f(k) for k in range(int(n)) if cond is None or cond(k)), 0)

    @staticmethod
    def Prod(n, f):
        r = 1.0
        for k in range(int(n)):
            r *= f(k)
        return r

    @staticmethod
    def Max(n, f, cond=None):
        return max((f(k) for k in range(int(n)) if cond is None or cond(k)), default=-math.inf)

    @staticmethod
    def Min(n, f, cond=None):
        return min((f(k) for k in range(int(n)) if cond is None or cond(k)), default=math.inf)

    @staticmethod
    def ArgMax(n, f, cond=None):
        ks = [k for k in range(int(n)) if cond is None or cond(k)] or [0]
        return max(ks, key=f)

    @staticmethod
    def ArgMin(n, f, cond=None):
        ks = [k for k in range(int(n)) if cond is None or cond(k)] or [0]
        return min(ks, key=f)

    @staticmethod
    def All(n, f):
        return all(bool(f(k)) for k in range(int(n)))

    @staticmethod
    def Any(n, f):
        return any(bool(f(k)) for k in range(int(n)))

    exp = staticmethod(lambda x: math.exp(x) if x < 700 else math.inf)
    log = staticmethod(lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan))
    sqrt = staticmethod(lambda x: math.sqrt(x) if x >= 0 else math.nan)
    pow = staticmethod(lambda a, b: a ** b)
    floor = staticmethod(math.floor)
    ceil = staticmethod(math.ceil)
    max = staticmethod(max)
    min = staticmethod(min)
    abs = staticmethod(abs)
    le = staticmethod(lambda a, b: a <= b)
    lt = staticmethod(lambda a, b: a < b)

    @staticmethod
    def div(a, b):
        try:
            return a / b
        except ZeroDivisionError:
            if a == 0 or a != a:
                return math.nan
            return math.inf if a > 0 else -math.inf

    def fn(self, name, x):
        return CFN[name](x)

    def at(self, t, *i):
        if isinstance(t, (int, float)):
            return t
        v = t[tuple(int(q) for q in i)]
        return _py(v)

    def scalar(self, x):
        return _py(x)

    def shape(self, t):
        return list(t.shape)

    def gradset(self, loss, nets=None):
        out = []
        for n, m in (nets or self.nets).items():
            if not isinstance(loss, torch.Tensor) or not loss.requires_grad:
                continue
            g = torch.autograd.grad(loss.sum(), m.p, retain_graph=True, allow_unused=True)[0]
            if g is not None:
                out.append(n)
        return sorted(out)

    def gradsrc(self, loss, inputs):
        out = set()
        if not isinstance(loss, torch.Tensor) or not loss.requires_grad:
            return []
        for n, m in self.nets.items():
            for k, leaf in enumerate(m.leaves):
                if not leaf.requires_grad:
                    continue
                g = torch.autograd.grad(loss.sum(), leaf, retain_graph=True, allow_unused=True)[0]
                if g is None:
                    continue
                x = m.log[k][0]
                lab = "?"
                for l, t in inputs.items():
                    t = getattr(t, "float_features", t) if not isinstance(t, torch.Tensor) else t
                    if t.shape == x.shape and torch.equal(t, x):
                        lab = l
                        break
                out.add(f"{n}@{lab}")
        return sorted(out)

    # ---- running the code
    def call(self, what, fn, *a, inject=None, expect=None, stub=None, objects=False, **k):
        real_backward = torch.Tensor.backward
        events = getattr(self, "events", None)

        def backward(t, *aa, **kk):
            events.append(("backward", None, t))
            kk["retain_graph"] = True
            return real_backward(t, *aa, **kk)

        try:
            if events is not None:
                torch.Tensor.backward = backward
            with patch.stubs(stub), patch.injected(inject):
                return fn(*a, **k)
        except Exception as ex:
            if expect and isinstance(ex, expect):
                return ex
            tb = traceback.extract_tb(ex.__traceback__)
            if not any("/reagent/" in f.filename for f in tb[1:]) and "/vf/" in tb[-1].filename:
                raise
            self.fails.append((f"{what}: no exception", f"{type(ex).__name__}: {ex}"))
            raise Violation(what)
        finally:
            torch.Tensor.backward = real_backward

    # ---- obligations
    def check(self, name, goal, skolem=()):
        self.nobl += 1
        if not goal:
            self.fails.append((name, "false"))

    def forall(self, name, dims, f):
        self.nobl += 1
        for i in itertools.product(*[range(int(d)) for d in dims]):
            if not f(*i):
                self.fails.append((name, f"at index {i}"))
                return

    def eqshape(self, name, t, shape):
        self.nobl += 1
        if list(t.shape) != [int(s) for s in shape]:
            self.fails.append((name + ": shape", f"{list(t.shape)} != {[int(s) for s in shape]}"))
            return False
        return True

    def eqt(self, name, t, shape, f):
        if not self.eqshape(name, t, shape):
            return
        self.nobl += 1
        for i in itertools.product(*[range(int(s)) for s in shape]):
            got, want = self.at(t, *i), _py(f(*i))
            if not self.eq(got, want):
                self.fails.append((name, f"at {i}: got {got!r}, specification {want!r}"))
                return

    def close(self, a, b, rtol=1e-5, atol=1e-8):
        """concrete tensors: same shape, close values (torch.allclose would broadcast)"""
        import torch

        return tuple(a.shape) == tuple(b.shape) and torch.allclose(a, b, rtol=rtol, atol=atol)

    def checkeq(self, name, got, want, skolem=()):
        self.nobl += 1
        if not self.eq(got, want):
            self.fails.append((name, f"got {_py(got)!r}, specification {_py(want)!r}"))

    def same(self, name, a, b):
        self.nobl += 1
        if a != b:
            self.fails.append((name, f"got {a!r}, specification {b!r}"))

    def finish(self):
        pass


def _py(v):
    if isinstance(v, torch.Tensor) or isinstance(v, np.ndarray) or isinstance(v, np.generic):
        return v.item()
    return v
