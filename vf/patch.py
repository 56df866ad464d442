"""Symbolic environment: proxies for torch / numpy / math / builtins that are
installed into the globals of the loaded `reagent` modules for the duration of
a symbolic run (the repository's source is executed unchanged)."""
import builtins
import contextlib
import math
import sys
import types

import numpy as np
import torch

from . import engine, smt, tensor
from .smt import S, Unsupported, _t
from .tensor import NP_OPS, OPS, OPS_F, T, T_of, is_T, isint


def _has_sym(x, d=0):
    if isinstance(x, S) or is_T(x):
        return True
    if d < 3 and isinstance(x, (list, tuple)):
        return any(_has_sym(y, d + 1) for y in x)
    if d < 3 and isinstance(x, dict):
        return any(_has_sym(y, d + 1) for y in x.values())
    return False


class Legacy:
    """torch.FloatTensor and its siblings: constructor and dtype"""

    def __init__(self, n):
        self.n = n
        self.real = getattr(torch, n)

    def __call__(self, *a):
        if _has_sym(a):
            return OPS_F["tensor"](*a, dtype=self.real.dtype)
        return self.real(*a)

    def __instancecheck__(self, x):
        return isinstance(x, self.real)


class TorchProxy(types.ModuleType):
    def __init__(self):
        super().__init__("torch")

    def __getattr__(self, n):
        if n == "Tensor":
            return torch.Tensor
        if n in ("FloatTensor", "LongTensor", "DoubleTensor"):
            return Legacy(n)
        if n in OPS_F:
            return OPS_F[n]
        real = getattr(torch, n)
        if n in ("manual_seed", "device", "no_grad", "enable_grad", "Size"):
            return real
        if n in OPS and callable(real) and not isinstance(real, type):
            o = OPS[n]

            def f(*a, **k):
                if _has_sym(a) or _has_sym(k):
                    return o(*a, **k)
                return real(*a, **k)

            return f
        if callable(real) and not isinstance(real, type) and isinstance(real, (types.FunctionType, types.BuiltinFunctionType)):

            def g(*a, **k):
                if _has_sym(a) or _has_sym(k):
                    if n in ("randperm", "normal", "quantile", "unique", "sort", "topk", "argsort", "median", "bincount", "histc"):
                        raise Unsupported(f"torch.{n}")
                return real(*a, **k)

            return g
        return real


class FProxy(types.ModuleType):
    """torch.nn.functional: functions that take symbolic sizes"""

    def __init__(self):
        super().__init__("torch.nn.functional")

    def __getattr__(self, n):
        real = getattr(torch.nn.functional, n)
        if n in OPS and callable(real):
            o = OPS[n]
            return lambda *a, **k: o(*a, **k) if _has_sym(a) or _has_sym(k) else real(*a, **k)
        return real


class NpRandom:
    def __getattr__(self, n):
        raise Unsupported(f"np.random.{n}")


OBJECTS = [False]  # numpy code on arrays of symbolic scalars (fixed sizes) runs in the real numpy


def _obj_np(n, real):
    def f(*a, **k):
        if n == "logspace" and isinstance(k.get("base"), S):
            b, num = k["base"], k["num"]
            assert k["start"] == 0 and k["stop"] == num - 1
            out = np.empty(num, dtype=object)
            for i in range(num):
                out[i] = smt.power(b, i) if i else 1.0
            return out
        if n == "nanmean":
            return np.mean(*a, **k)
        if n in ("sqrt", "log", "exp", "isnan", "maximum", "minimum", "clip") and a and (isinstance(a[0], S) or getattr(a[0], "dtype", None) == object):
            raise Unsupported(f"np.{n} on symbolic scalars")
        return real(*a, **k)

    return f


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        real = getattr(np, n)
        if OBJECTS[0]:
            return _obj_np(n, real) if callable(real) and not isinstance(real, type) else real
        if n == "random":
            return np.random
        if n in ("array", "zeros", "ones", "full", "arange", "asarray", "eye", "empty", "linspace"):

            def f(*a, **k):
                if _has_sym(a) or _has_sym(k):
                    return OPS_F[n](*a, **k)
                return real(*a, **k)

            return f
        if isinstance(real, type) or not callable(real):
            return real

        def g(*a, **k):
            if _has_sym(a) or _has_sym(k):
                r = tensor.np_call(getattr(real, "__name__", n), a, k)
                if is_T(r) and r.ndim == 0:
                    return r.item()
                return r
            return real(*a, **k)

        return g


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        real = getattr(math, n)
        m = {
            "exp": smt.exp, "log": smt.log, "sqrt": smt.sqrt, "floor": smt.floor,
            "ceil": smt.ceil, "pow": smt.power,
            "isnan": lambda v: False,
            "isinf": lambda v: bool(S(smt._or(smt.ninf_of(v), smt.pinf_of(v)))) if smt.has_inf(v) else False,
            "isfinite": lambda v: True,
            "fabs": lambda v: abs(v),
        }
        if n in m:

            def f(*a):
                a = [x.item() if is_T(x) else x for x in a]
                if any(isinstance(x, S) for x in a):
                    return m[n](*a)
                return real(*a)

            return f
        return real


class SymRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        return iter(self.values())

    def __reversed__(self):
        return reversed(self.values())

    def values(self, most=6):
        """the path's preconditions bound the number of iterations by a small number: one path each"""
        e = engine.cur()
        if self.step != 1:
            raise Unsupported("loop over a symbolic range")
        n = smt.sub(self.hi, self.lo)
        if not smt.is_num(n):
            k = next((k for k in range(most + 1) if e.entails(_t(smt.le(n, k)))), None)
            if k is None:
                raise Unsupported("loop over a symbolic range")
            n = next((j for j in range(k) if (smt.le(n, j) if j == 0 else smt.eq(n, j))), k)
        return [smt.add(self.lo, j) for j in range(max(0, int(n)))]


def s_range(*a):
    if any(isinstance(x, S) or is_T(x) for x in a):
        a = [tensor.cint(x) for x in a]
        if all(isint(x) for x in a):
            return range(*a)
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return range(*a)


def s_len(x):
    if is_T(x):
        if not x._shape:
            raise TypeError("len() of a 0-d tensor")
        return x._shape[0]
    if hasattr(type(x), "__symlen__"):
        return type(x).__symlen__(x)
    return builtins.len(x)


def s_minmax(which):
    f = smt.smax if which == "max" else smt.smin
    real = getattr(builtins, which)

    def g(*a, **k):
        if k:
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        xs = [x.item() if is_T(x) and x.ndim == 0 else x for x in xs]
        if any(isinstance(x, S) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                # python's min/max keep the first of equal elements
                r = smt.ite(smt.lt(r, x), x, r) if which == "max" else smt.ite(smt.lt(x, r), x, r)
            return r
        return real(*a, **k)

    return g


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def s_int(*a, **k):
    if a and isinstance(a[0], S):
        return smt.toint(a[0])
    if a and is_T(a[0]):
        return smt.toint(a[0].item())
    return builtins.int(*a, **k)


def s_float(*a):
    if a and isinstance(a[0], S):
        return smt.toreal(a[0])
    if a and is_T(a[0]):
        return smt.toreal(a[0].item())
    return builtins.float(*a)


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return cls._chk(x)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __eq__(cls, o):
        return o is cls._real or type.__eq__(cls, o)

    __hash__ = type.__hash__


def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, S):
        for q in ts:
            if q in (float, np.floating) and x.is_real:
                return True
            if q is int and (x.is_int or x.is_bool):
                return True
            if q is bool and x.is_bool:
                return True
            if q is S or q is object:
                return True
            if getattr(q, "__name__", "") in ("Number", "Real"):
                return True
        return False
    if is_T(x):
        for q in ts:
            if q is torch.Tensor or q is T or q is object:
                return True
            if q is np.ndarray and getattr(x, "_np", False):
                return True
        if getattr(x, "_np", False) and torch.Tensor in ts:
            return False
        return False
    return builtins.isinstance(x, t)


def s_bool(x=False):
    return builtins.bool(x)


def s_abs(x):
    return abs(x)


def s_round(x, n=None):
    if isinstance(x, S) or is_T(x):
        if is_T(x):
            x = x.item()
        return smt.S(smt.rfun(f"round{n}", x))
    return builtins.round(x, n) if n is not None else builtins.round(x)


_TP, _NP, _MP, _FP = TorchProxy(), NpProxy(), MathProxy(), FProxy()
_BUILT = {
    "len": s_len,
    "range": s_range,
    "max": s_minmax("max"),
    "min": s_minmax("min"),
    "sum": s_sum,
    "int": None,
    "float": None,
    "isinstance": s_isinstance,
    "round": s_round,
}


class _IntT(metaclass=_NumMeta):
    _real = int
    _chk = staticmethod(lambda x: s_isinstance(x, int))
    _conv = staticmethod(s_int)


class _FloatT(metaclass=_NumMeta):
    _real = float
    _chk = staticmethod(lambda x: s_isinstance(x, float))
    _conv = staticmethod(s_float)


_BUILT["int"] = s_int
_BUILT["float"] = s_float


def _fix_isinst(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(int if q is s_int else float if q is s_float else q for q in ts)
    return s_isinstance(x, ts if len(ts) > 1 else ts[0])


_BUILT["isinstance"] = _fix_isinst


def stubbed(d, stub, saved):
    """replace functions under an assumed contract wherever the code refers to them"""
    if stub:
        for k, v in list(d.items()):
            for f, g in stub:
                if v is f:
                    saved.append((d, k, v))
                    d[k] = g


@contextlib.contextmanager
def stubs(stub):
    saved = []
    for n, m in list(sys.modules.items()) if stub else []:
        if m is not None and (n == "reagent" or n.startswith("reagent.")):
            stubbed(m.__dict__, stub, saved)
    try:
        yield
    finally:
        for d, k, v in reversed(saved):
            d[k] = v


def _extended_shape(self, sample_shape=torch.Size()):
    """torch's own, for sizes that may be symbolic"""
    r = tuple(sample_shape) + tuple(self._batch_shape) + tuple(self._event_shape)
    return r if _has_sym(r) else torch.Size(r)


@contextlib.contextmanager
def injected(inject):
    """give names of the loaded reagent modules another meaning (collaborators built by the code)"""
    saved = []
    for n, m in list(sys.modules.items()) if inject else []:
        if m is not None and (n == "reagent" or n.startswith("reagent.")):
            for k, v in inject.items():
                if k in m.__dict__:
                    saved.append((m.__dict__, k, m.__dict__[k]))
                    m.__dict__[k] = v
    try:
        yield
    finally:
        for d, k, v in reversed(saved):
            d[k] = v


@contextlib.contextmanager
def symbolic(extra_modules=(), inject=None, stub=None, objects=False):
    OBJECTS[0] = objects
    saved = []
    MISSING = object()
    mods = [
        m
        for n, m in list(sys.modules.items())
        if m is not None and (n == "reagent" or n.startswith("reagent.")) or n in extra_modules
    ]
    for m in mods:
        d = m.__dict__
        for k, v in list(d.items()):
            r = None
            if v is torch:
                r = _TP
            elif v is torch.nn.functional:
                r = _FP
            elif v is np:
                r = _NP
            elif v is math:
                r = _MP
            elif v is float:
                r = s_float
            if r is not None:
                saved.append((d, k, v))
                d[k] = r
            elif k in ("tensor", "zeros", "ones", "full", "arange", "eye") and v is getattr(torch, k, MISSING):
                saved.append((d, k, v))
                d[k] = OPS_F[k]
        for k, v in _BUILT.items():
            if k not in d:
                saved.append((d, k, MISSING))
                d[k] = v
        stubbed(d, stub, saved)
        for k, v in (inject or {}).items():
            saved.append((d, k, d.get(k, MISSING)))
            d[k] = v
    va = torch.distributions.Distribution._validate_args
    es = torch.distributions.Distribution._extended_shape
    torch.distributions.Distribution._extended_shape = _extended_shape
    torch.distributions.Distribution.set_default_validate_args(False)
    try:
        yield
    finally:
        OBJECTS[0] = False
        torch.distributions.Distribution.set_default_validate_args(va)
        torch.distributions.Distribution._extended_shape = es
        for d, k, v in reversed(saved):
            if v is MISSING:
                d.pop(k, None)
            else:
                d[k] = v
