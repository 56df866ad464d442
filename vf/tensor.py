"""Symbolic tensors: shape of (possibly symbolic) integers + index -> scalar.

Operation models are the assumed contracts on torch; vf/selftest.py compares
every model with real torch on concrete data.
"""
import itertools
import math
import operator

import numpy as np
import torch

from . import engine, smt
from .engine import ArgMax, ArgMin, Any, All, Max, Min, Prod, Sum, cur
from .smt import S, Unsupported, _t, z3

F32, F64, I64, BOOL = torch.float32, torch.float64, torch.int64, torch.bool
OPS = {}
NOGRAD = [0]


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f

    return deco


def is_f(d):
    return d.is_floating_point


def promote(a, b):
    if a == b:
        return a
    return torch.promote_types(a, b)


def cast(v, d):
    if d == BOOL:
        return smt.tobool(v)
    if is_f(d):
        return smt.toreal(v)
    return smt.toint(v)


class Size(tuple):
    def numel(self):
        r = 1
        for x in self:
            r = smt.mul(r, x)
        return r

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return Size(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)) or len(o) != len(self):
            return False
        return all(bool(smt.eq(a, b)) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = tuple.__hash__


def dimeq(a, b):
    """provably/decidedly equal dims"""
    if smt.is_num(a) and smt.is_num(b):
        return a == b
    e = smt.eq(a, b)
    if smt.is_num(e):
        return e
    return cur().fork(e.t)


def same_dim(a, b):
    """structurally / provably equal, without forking"""
    if smt.is_num(a) and smt.is_num(b):
        return a == b
    e = smt.eq(a, b)
    if smt.is_num(e):
        return bool(e)
    e2 = z3.simplify(e.t)
    if z3.is_true(e2):
        return True
    if z3.is_false(e2):
        return False
    return cur().entails(e2)


def cint(x):
    """python int if concrete else S"""
    if isinstance(x, S):
        v = z3.simplify(x.t)
        if z3.is_int_value(v):
            return v.as_long()
        return x
    if isinstance(x, T):
        return cint(x.item())
    if isinstance(x, torch.Tensor) or smt._np_scalar(x):
        return int(x.item())
    return int(x)


def isint(x):
    return smt.is_num(x)


_REG = {}


class Torch_T_Meta(type):
    pass


class T:
    __array_priority__ = 3000
    _is_T = True

    def __init__(self, shape, fn, dtype=F32, g=frozenset(), row=None):
        object.__setattr__(self, "_shape", Size(cint(d) for d in shape))
        self._fn = fn
        self._base = None
        self._fwd = None
        self._inv = None
        self._dtype = dtype
        self._g = g if torch.is_grad_enabled() else frozenset()
        self._row = row  # closure over leading dims -> opaque Row term
        self._tile = None  # last dimension made of copies of a row: (row of lead + copy, lead + copies, row width)
        self._rg = False

    # isinstance(x, torch.Tensor)
    @property
    def __class__(self):
        return torch.Tensor

    # ---------------------------------------------------------------- access
    def at(self, *idx):
        assert len(idx) == len(self._shape), (idx, self._shape)
        if self._base is not None:
            return self._base.at(*self._fwd(*idx))
        return self._fn(*idx)

    def snap(self):
        if self._base is not None:
            b, f = self._base.snap(), self._fwd
            return lambda *i: b(*f(*i))
        return self._fn

    def write(self, fn):
        if self._base is not None:
            if self._inv is None:
                raise Unsupported("write through this view")
            old, inv, base = self._base.snap(), self._inv, self._base

            def nf(*bi):
                c, i = inv(*bi)
                if c is False:
                    return old(*bi)
                return smt.ite(c, fn(*i), old(*bi)) if c is not True else fn(*i)

            base.write(nf)
        else:
            self._fn = fn
        self._row = self._tile = None

    @property
    def shape(self):
        return self._shape

    @property
    def dtype(self):
        return self._dtype

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def is_cuda(self):
        return False

    is_sparse = False
    is_quantized = False
    layout = torch.strided
    is_leaf = True
    grad_fn = None
    is_nested = False

    @property
    def requires_grad(self):
        return self._rg or bool(self._g)

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = v

    @property
    def data(self):
        return self.detach()

    events = None

    def backward(self, *a, **k):
        if T.events is None:
            raise Unsupported("backward outside a recorded training step")
        T.events.append(("backward", None, self))

    @property
    def T(self):
        return OPS["permute"](self, *reversed(range(self.ndim)))

    @property
    def values(self):
        raise AttributeError

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __getattr__(self, name):
        if name in OPS:
            o = OPS[name]
            return lambda *a, **k: o(self, *a, **k)
        if name.startswith("__") or not hasattr(torch.Tensor, name):
            raise AttributeError(name)
        raise Unsupported(f"Tensor.{name}")

    # numpy interop
    def __array_ufunc__(self, ufunc, method, *args, **kw):
        if method != "__call__":
            raise Unsupported(f"ufunc {ufunc} {method}")
        out = kw.pop("out", None)
        r = np_call(ufunc.__name__, args, kw)
        if out is not None:
            o = out[0]
            o.write(T_of(r).snap())
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        return np_call(func.__name__, args, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported("tensor -> ndarray")

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of a 0-d tensor")
        n = self._shape[0]
        if isint(n):
            return n
        raise Unsupported("len() of a symbolic dimension")

    def __iter__(self):
        n = self._shape[0]
        if isint(n):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over a symbolic dimension")

    def __bool__(self):
        return bool(self.item())

    def __float__(self):
        v = self.item()
        return float(v)

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return operator.index(self.item())

    def __format__(self, s):
        return "<symbolic tensor>"

    def __repr__(self):
        return f"<T {self._shape} {self._dtype}>"

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return OPS["clone"](self)

    # ------------------------------------------------------------ operators
    def _bin(name, rev=False):
        def f(self, o):
            return OPS[name](o, self) if rev else OPS[name](self, o)

        return f

    __add__ = _bin("add")
    __radd__ = _bin("add", True)
    __sub__ = _bin("sub")
    __rsub__ = _bin("sub", True)
    __mul__ = _bin("mul")
    __rmul__ = _bin("mul", True)
    __truediv__ = _bin("div")
    __rtruediv__ = _bin("div", True)
    __floordiv__ = _bin("floor_divide")
    __rfloordiv__ = _bin("floor_divide", True)
    __mod__ = _bin("remainder")
    __pow__ = _bin("pow")
    __rpow__ = _bin("pow", True)
    __matmul__ = _bin("matmul")
    __rmatmul__ = _bin("matmul", True)
    __lt__ = _bin("lt")
    __le__ = _bin("le")
    __gt__ = _bin("gt")
    __ge__ = _bin("ge")
    __eq__ = _bin("eq")
    __ne__ = _bin("ne")
    __and__ = _bin("bitwise_and")
    __rand__ = _bin("bitwise_and", True)
    __or__ = _bin("bitwise_or")
    __ror__ = _bin("bitwise_or", True)
    __xor__ = _bin("bitwise_xor")

    def __neg__(self):
        return OPS["neg"](self)

    def __pos__(self):
        return self

    def __abs__(self):
        return OPS["abs"](self)

    def __invert__(self):
        return OPS["bitwise_not"](self)

    def _inp(name):
        def f(self, o):
            r = OPS[name](self, o)
            inplace(self, r)
            return self

        return f

    __iadd__ = _inp("add")
    __isub__ = _inp("sub")
    __imul__ = _inp("mul")
    __itruediv__ = _inp("div")
    __iand__ = _inp("bitwise_and")
    __ior__ = _inp("bitwise_or")

    def __getitem__(self, k):
        return getitem(self, k)

    def __setitem__(self, k, v):
        setitem(self, k, v)

    def item(self):
        idx = []
        for d in self._shape:
            if not (isint(d) and d == 1) and not cur().entails(_t(smt.eq(d, 1))):
                raise Unsupported("item() of a non-scalar")
            idx.append(0)
        v = self.at(*idx)
        return v

    def tolist(self):
        if not self._shape:
            return self.item()
        return [x.tolist() for x in self]

    def numpy(self):
        return self

    def __contains__(self, x):
        raise Unsupported("in tensor")


def inplace(x, r):
    r = T_of(r)
    if len(r._shape) != len(x._shape):
        r = expand_to(r, x._shape)
    else:
        r = expand_to(r, x._shape)
    d = x._dtype
    f = r.snap()
    x.write(lambda *i: cast(f(*i), d))
    if torch.is_grad_enabled():
        x._g = x._g | r._g


def is_T(x):
    return type(x) is T


def const_T(t):
    """real torch tensor / ndarray -> T"""
    if isinstance(t, np.ndarray):
        if t.dtype == object:
            arr = t

            def ofn(*i):
                if all(isint(k) for k in i):
                    return smt._clean(arr[tuple(int(k) for k in i)])
                return _nest(arr.tolist(), i)

            d = F32
            return T(t.shape, ofn, d)
        td = torch.from_numpy(np.ascontiguousarray(t))
        return const_T(td)
    t0 = t.detach()
    vals = t0.tolist()

    def fn(*i):
        return _nest(vals, i)

    # constant tensors: recognise uniform ones
    if t0.numel() > 0 and not t0.dtype == BOOL:
        fl = t0.reshape(-1)
        if bool((fl == fl[0]).all()):
            v = fl[0].item()
            return T(tuple(t0.shape), lambda *i: v, t0.dtype)
    return T(tuple(t0.shape), fn, t0.dtype)


def _nest(v, idx):
    if not idx:
        return v
    i = idx[0]
    if isint(i):
        return _nest(v[int(i)], idx[1:])
    if len(v) > 64:
        raise Unsupported("symbolic index into a large constant")
    r = _nest(v[-1], idx[1:])
    for k in range(len(v) - 2, -1, -1):
        r = smt.ite(smt.eq(i, k), _nest(v[k], idx[1:]), r)
    return r


def T_of(x):
    if is_T(x):
        return x
    if isinstance(x, torch.Tensor):
        return const_T(x)
    if isinstance(x, np.ndarray):
        return const_T(x)
    if isinstance(x, S):
        d = BOOL if x.is_bool else (I64 if x.is_int else F32)
        return T((), lambda: x, d)
    if smt._np_scalar(x):
        x = x.item()
    if isinstance(x, bool):
        return T((), lambda: x, BOOL)
    if isinstance(x, int):
        return T((), lambda: x, I64)
    if isinstance(x, float):
        return T((), lambda: x, F32)
    if isinstance(x, (list, tuple)):
        return OPS_F["tensor"](x)
    raise Unsupported(f"to tensor: {type(x)}")


def sdtype(x):
    """(dtype, is python scalar)"""
    if is_T(x) or (isinstance(x, torch.Tensor)):
        return x.dtype, len(x.shape) == 0
    if isinstance(x, np.ndarray):
        return const_T(x).dtype, False
    if isinstance(x, S):
        return (BOOL if x.is_bool else I64 if x.is_int else F32), True
    if smt._np_scalar(x):
        x = x.item()
    if isinstance(x, bool):
        return BOOL, True
    if isinstance(x, int):
        return I64, True
    return F32, True


def res_dtype(*xs):
    ds = [sdtype(x) for x in xs]
    full = [d for d, s in ds if not s]
    sc = [d for d, s in ds if s]

    def cat(d):
        return 0 if d == BOOL else (2 if is_f(d) else 1)

    if not full:
        r = sc[0]
        for d in sc[1:]:
            r = promote(r, d)
        return r
    r = full[0]
    for d in full[1:]:
        r = promote(r, d)
    for d in sc:
        if cat(d) > cat(r):
            r = F32 if cat(d) == 2 else d
    return r


def gset(*xs):
    g = frozenset()
    for x in xs:
        if is_T(x):
            g = g | x._g
    return g


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cand = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if isint(d) and d == 1:
                if cand is None:
                    cand = 1
                continue
            if cand is None or (isint(cand) and cand == 1):
                cand = d
            elif not same_dim(cand, d):
                # a symbolic dimension may be 1
                if dimeq(cand, d):
                    continue
                if not isint(cand) and cur().fork(_t(smt.eq(cand, 1))):
                    cand = d
                    continue
                if not isint(d) and cur().fork(_t(smt.eq(d, 1))):
                    continue
                raise RuntimeError(
                    "The size of tensor a must match the size of tensor b"
                )
        out.append(cand)
    return Size(out)


def bidx(x, idx, shape):
    """index of x for result index idx under broadcasting to shape"""
    s = x._shape
    off = len(shape) - len(s)
    r = []
    for j, d in enumerate(s):
        if isint(d) and d == 1:
            r.append(0)
        elif not isint(d) and not same_dim(d, shape[off + j]):
            r.append(0)  # decided to be 1 by bshape
        else:
            r.append(idx[off + j])
    return r


def ew(fn, *xs, dtype=None, keepg=True):
    ts = [T_of(x) for x in xs]
    shape = bshape(*[t._shape for t in ts])
    d = dtype or res_dtype(*xs)
    sn = [t.snap() for t in ts]
    maps = []
    for t in ts:
        off = len(shape) - len(t._shape)
        m = []
        for j, dd in enumerate(t._shape):
            if (isint(dd) and dd == 1) or not same_dim(dd, shape[off + j]):
                m.append(None)
            else:
                m.append(off + j)
        maps.append(m)

    def f(*idx):
        return cast(
            fn(*[s(*[0 if k is None else idx[k] for k in m]) for s, m in zip(sn, maps)]), d
        )

    return T(shape, f, d, gset(*ts) if keepg and is_f(d) else frozenset())


def expand_to(x, shape):
    shape = Size(shape)
    if len(x._shape) > len(shape):
        # leading ones
        k = len(x._shape) - len(shape)
        if all(isint(d) and d == 1 for d in x._shape[:k]):
            f0 = x.snap()
            x = T(x._shape[k:], lambda *i: f0(*([0] * k + list(i))), x._dtype, x._g)
        else:
            raise RuntimeError("shape mismatch in expand")
    off = len(shape) - len(x._shape)
    m = []
    for j, d in enumerate(x._shape):
        if isint(d) and d == 1:
            m.append(None)
        elif same_dim(d, shape[off + j]):
            m.append(off + j)
        elif dimeq(d, shape[off + j]):
            m.append(off + j)
        elif not isint(d) and cur().fork(_t(smt.eq(d, 1))):
            m.append(None)
        else:
            raise RuntimeError("The expanded size must match the existing size")
    f = x.snap()
    return T(shape, lambda *i: f(*[0 if k is None else i[k] for k in m]), x._dtype, x._g)


# ------------------------------------------------------------------- indexing
def norm_idx(i, n):
    """index in [0, n), with torch's negative wrap-around and bounds error"""
    i = cint(i)
    if isint(i) and isint(n):
        if not -n <= i < n:
            raise IndexError(f"index {i} is out of bounds for dimension with size {n}")
        return i + n if i < 0 else i
    if isint(i):
        if i >= 0:
            if not bool(smt.lt(i, n)):
                raise IndexError("index out of range")
            return i
        if not bool(smt.le(-i, n)):
            raise IndexError("index out of range")
        return smt.add(n, i)
    if bool(smt.le(0, i)):
        if not bool(smt.lt(i, n)):
            raise IndexError("index out of range")
        return i
    if not bool(smt.le(smt.neg(n), i)):
        raise IndexError("index out of range")
    return smt.add(n, i)


def slice_bounds(sl, n):
    step = 1 if sl.step is None else cint(sl.step)
    if not isint(step):
        raise Unsupported("symbolic step")

    def clampi(v, dflt):
        if v is None:
            return dflt
        v = cint(v)
        if isint(v) and isint(n):
            if v < 0:
                v += n
            return min(max(v, 0), n)
        if isint(v):
            if v < 0:
                v = smt.add(n, v)
                return v if cur().entails(_t(smt.le(0, v))) else smt.smax(0, v)
            return v if cur().entails(_t(smt.le(v, n))) else smt.smin(v, n)
        if not cur().entails(_t(smt.le(0, v))):
            v = v if bool(smt.le(0, v)) else smt.smax(0, smt.add(n, v))
        return v if cur().entails(_t(smt.le(v, n))) else smt.smin(v, n)

    if step > 0:
        lo, hi = clampi(sl.start, 0), clampi(sl.stop, n)
        if step == 1:
            ln = smt.sub(hi, lo)
            if isint(ln):
                ln = max(0, ln)
            elif not cur().entails(_t(smt.le(0, ln))):
                ln = smt.smax(0, ln)
        else:
            d = smt.sub(hi, lo)
            ln = max(0, -(-d // step)) if isint(d) else smt.smax(0, smt.neg(smt.floordiv(smt.neg(d), step)))
        return lo, ln, step
    # negative step (numpy / python lists only): full reversal
    if sl.start is None and sl.stop is None and step == -1:
        return smt.sub(n, 1), n, -1
    raise Unsupported("negative slice step")


def view(base, shape, fwd, inv):
    r = T(shape, None, base._dtype, base._g)
    r._base, r._fwd, r._inv = base, fwd, inv
    return r


def _mask_like(k):
    return (is_T(k) or isinstance(k, (torch.Tensor, np.ndarray))) and (
        (k.dtype == BOOL) or (isinstance(k, np.ndarray) and k.dtype == bool)
    )


def getitem(x, k):
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    # expand ellipsis
    nreal = sum(
        (len(q.shape) if _mask_like(q) else 1)
        for q in k
        if q is not None and q is not Ellipsis
    )
    if any(q is Ellipsis for q in k):
        j = [q is Ellipsis for q in k].index(True)
        k[j : j + 1] = [slice(None)] * (x.ndim - nreal)
    else:
        k = k + [slice(None)] * (x.ndim - nreal)
    k = [OPS_F["arange"](q.lo, q.hi, q.step) if type(q).__name__ == "SymRange" else q for q in k]
    adv = [
        q
        for q in k
        if is_T(q)
        and (len(q._shape) > 0)
        or isinstance(q, (torch.Tensor, np.ndarray))
        and len(q.shape) > 0
        or isinstance(q, (list, range))
    ]
    if adv:
        return adv_index(x, k)
    d = 0
    plan = []  # per source dim
    oshape = []
    for q in k:
        if q is None:
            plan.append(("new",))
            oshape.append(1)
            continue
        n = x._shape[d]
        if isinstance(q, slice):
            if q.start is None and q.stop is None and q.step is None:
                plan.append(("sl", d, 0, n, 1))
                oshape.append(n)
            else:
                lo, ln, st = slice_bounds(q, n)
                plan.append(("sl", d, lo, ln, st))
                oshape.append(ln)
        else:
            if isinstance(q, bool):
                raise Unsupported("bool index")
            plan.append(("int", d, norm_idx(q, n)))
        d += 1

    def fwd(*idx):
        r = []
        o = 0
        for p in plan:
            if p[0] == "new":
                o += 1
            elif p[0] == "int":
                r.append(p[2])
            else:
                i = idx[o]
                o += 1
                i = i if p[4] == 1 else smt.mul(i, p[4])
                r.append(smt.add(p[2], i) if not (isint(p[2]) and p[2] == 0) else i)
        return r

    def inv(*bi):
        c = True
        r = []
        for p in plan:
            if p[0] == "new":
                r.append(0)
            elif p[0] == "int":
                c = smt.land(c, smt.tobool(smt.eq(bi[p[1]], p[2])))
            else:
                _, dd, lo, ln, st = p
                b = bi[dd]
                if st == 1:
                    i = b if (isint(lo) and lo == 0) else smt.sub(b, lo)
                    if not (isint(lo) and lo == 0):
                        c = smt.land(c, smt.tobool(smt.le(0, i)))
                    if ln is not x._shape[dd]:
                        c = smt.land(c, smt.tobool(smt.lt(i, ln)))
                else:
                    q = smt.sub(b, lo)
                    i = smt.floordiv(q, st)
                    c = smt.And(c, smt.le(0, q), smt.eq(smt.mod(q, st), 0), smt.lt(i, ln))
                r.append(i)
        return c, r

    v = view(x, oshape, fwd, inv)
    if x._row is not None:
        # only leading dims may be restricted for the row view to survive
        last = plan[-1]
        if last[0] == "sl" and last[2] == 0 and last[3] is x._shape[-1]:
            row = x._row
            v._row = lambda *i: row(*fwd(*i, 0)[:-1])
    return v


def idx_vals(t, n, what="index"):
    """closure returning in-range index values of an integer index tensor"""
    f = t.snap()
    cur_reg_index(t, n, what)

    def g(*i):
        v = f(*i)
        if isint(v):
            if isint(n) and v < 0:
                return v + n
            return v if v >= 0 else smt.add(n, v)
        return v

    return g


def cur_reg_index(t, n, what):
    if not engine.have():
        return
    e = cur()
    if not hasattr(e, "wd"):
        e.wd = []
    f = t.snap()
    e.wd.append((what, t._shape, lambda *i: smt.And(smt.le(0, f(*i)), smt.lt(f(*i), n))))


def adv_index(x, k):
    # single boolean mask over leading dims
    masks = [q for q in k if _mask_like(q)]
    if masks:
        pos = [i for i, q in enumerate(k) if _mask_like(q)][0]
        others = [q for i, q in enumerate(k) if i != pos]
        if len(masks) > 1 or not all(
            isinstance(q, slice) and q == slice(None) for q in others
        ):
            raise Unsupported("mixed mask index")
        return mask_select(x, T_of(masks[0]), pos)
    # integer index tensors, plus slices / ints
    idxs = []
    d = 0
    for q in k:
        if q is None:
            raise Unsupported("None in advanced index")
        if isinstance(q, slice):
            idxs.append(("s", q))
        elif isinstance(q, (list, range)):
            idxs.append(("t", T_of(list(q))))
        elif is_T(q) or isinstance(q, (torch.Tensor, np.ndarray)):
            idxs.append(("t", T_of(q)))
        else:
            idxs.append(("t", T((), (lambda v: (lambda: v))(norm_idx(q, x._shape[d])), I64)))
        d += 1
    ts = [q for m, q in idxs if m == "t"]
    bs = bshape(*[t._shape for t in ts])
    ets = []
    for j, (m, q) in enumerate(idxs):
        if m == "t":
            e = expand_to(q, bs)
            ets.append(idx_vals(e, x._shape[j]))
        else:
            ets.append(None)
    tpos = [j for j, (m, _) in enumerate(idxs) if m == "t"]
    contiguous = tpos == list(range(tpos[0], tpos[-1] + 1))
    # result dims
    oshape, src = [], {}
    sls = {}
    first = tpos[0] if contiguous else 0
    nb = len(bs)
    for j, (m, q) in enumerate(idxs):
        if m == "s":
            sls[j] = slice_bounds(q, x._shape[j])
    order = []
    if not contiguous:
        oshape += list(bs)
    for j, (m, q) in enumerate(idxs):
        if contiguous and j == first:
            bpos = len(oshape)
            oshape += list(bs)
        if m == "s":
            src[j] = len(oshape)
            oshape.append(sls[j][1])
    if not contiguous:
        bpos = 0
    f = x.snap()

    def fwd(*i):
        b = i[bpos : bpos + nb]
        r = []
        for j, (m, q) in enumerate(idxs):
            if m == "t":
                r.append(ets[j](*b))
            else:
                lo, ln, st = sls[j]
                v = i[src[j]]
                v = v if st == 1 else smt.mul(v, st)
                r.append(smt.add(lo, v))
        return r

    r = T(oshape, lambda *i: f(*fwd(*i)), x._dtype, x._g)
    if x._row is not None and idxs[-1][0] == "s":
        row = x._row
        r._row = lambda *i: row(*fwd(*i, 0)[:-1])
    return r


def mask_fn(m):
    f = m.snap()
    return lambda *i: smt.tobool(f(*i))


def mask_select(x, m, pos=0):
    """x[:, ..., mask]: mask covers dims pos..pos+m.ndim of x; order preserving"""
    if m.ndim == 0:
        raise Unsupported("0-d mask")
    for a, b in zip(m._shape, x._shape[pos:]):
        if not dimeq(a, b):
            raise IndexError("The shape of the mask does not match the indexed tensor")
    sel, cnt = selection(m)
    nd = m.ndim
    f = x.snap()

    def fwd(*i):
        return list(i[:pos]) + list(sel(i[pos])) + list(i[pos + 1 :])

    shape = list(x._shape[:pos]) + [cnt] + list(x._shape[pos + nd :])
    r = T(shape, lambda *i: f(*fwd(*i)), x._dtype, x._g)
    if x._row is not None and pos == 0 and nd < x.ndim:
        row = x._row
        r._row = lambda *i: row(*fwd(*i, 0)[:-1])
    return r


def selection(m):
    """order-preserving enumeration of the true positions of a mask.

    Returns (sel, count): sel(i) -> index tuple of the i-th true element.
    """
    mf = mask_fn(m)
    nd = m.ndim
    dims = m._shape
    if all(isint(d) for d in dims):
        cells = list(itertools.product(*[range(d) for d in dims]))
        vals = [mf(*c) for c in cells]
        if all(isinstance(v, bool) for v in vals):
            tr = [c for c, v in zip(cells, vals) if v]

            def csel(i):
                if isint(i):
                    return tr[int(i)]
                return tuple(
                    _nest([c[j] for c in tr], (i,)) for j in range(nd)
                )

            return csel, len(tr)
    e = cur()
    # key by structure so that equal masks share the enumeration
    phs = [z3.Int(f"ph!m{j}") for j in range(nd)]
    body = _t(mf(*[S(p) for p in phs]))
    if any(p.decl().name().startswith("ph!") and not p.decl().name().startswith("ph!m") for p in engine.free_ph(body)):
        raise Unsupported("selection under a bound variable")
    body = z3.simplify(body)
    key = ("sel", body.get_id()) + tuple(_t(d).get_id() for d in dims)
    reg = e.__dict__.setdefault("sels", {})
    if e.__dict__.get("sels_path") is not e.pc:
        reg.clear()
        e.sels_path = e.pc
    if key in reg:
        return reg[key][:2]
    k = len(reg)
    fs = [z3.Function(f"sel{k}_{j}", z3.IntSort(), z3.IntSort()) for j in range(nd)]
    rank = z3.Function(f"rank{k}", *([z3.IntSort()] * (nd + 1)))

    def cntf(j, pre):
        if j == nd:
            return smt.ite(mf(*pre), 1, 0)
        return Sum(dims[j], lambda q: cntf(j + 1, pre + [q]))

    cnt = cntf(0, [])

    def sel(i):
        it = _t(i)
        return tuple(S(f(it)) for f in fs)

    e.assume_forall(
        [cnt],
        lambda i: smt.And(
            mf(*sel(i)),
            *[smt.And(smt.le(0, a), smt.lt(a, d)) for a, d in zip(sel(i), dims)],
            smt.eq(S(rank(*[_t(a) for a in sel(i)])), i),
        ),
    )
    e.assume_forall(
        list(dims),
        lambda *a: smt.implies(
            mf(*a),
            smt.And(
                smt.le(0, S(rank(*[_t(q) for q in a]))),
                smt.lt(S(rank(*[_t(q) for q in a])), cnt),
                *[
                    smt.eq(S(f(rank(*[_t(q) for q in a]))), q)
                    for f, q in zip(fs, a)
                ],
            ),
        ),
    )
    e.assume(smt.And(smt.le(0, cnt)))
    reg[key] = (sel, cnt, body, dims, fs, mf)
    e.__dict__.setdefault("selfun", {})[f"sel{k}_0"] = (dims, mf, fs)
    return sel, cnt


def setitem(x, k, v):
    if torch.is_grad_enabled() and is_T(v):
        x._g = x._g | v._g
    if not isinstance(k, tuple) and _mask_like(k):
        m = T_of(k)
        mf = mask_fn(m)
        nd = m.ndim
        old = x.snap()
        d = x._dtype
        vt = T_of(v)
        if vt.ndim == 0 or (
            vt.ndim <= x.ndim - nd
            or all(isint(q) and q == 1 for q in vt._shape[: max(0, vt.ndim - (x.ndim - nd))])
        ):
            f = vt.snap()
            off = x.ndim - vt.ndim
            vs = vt._shape

            def nf(*i):
                vi = [
                    0 if (isint(s) and s == 1) else i[off + j] for j, s in enumerate(vs)
                ]
                return smt.ite(mf(*i[:nd]), cast(f(*vi), d), old(*i))

            x.write(nf)
            return
        # x[mask] = values (one per true element, in order)
        sel, cnt = selection(m)
        e = cur()
        if not dimeq(vt._shape[0], cnt):
            raise RuntimeError("shape mismatch: value tensor cannot be broadcast to indexing result")
        f = vt.snap()
        # recover the rank of each position
        reg = [r for r in e.sels.values() if r[0] is sel or r[1] is cnt] if hasattr(e, "sels") else []
        if reg:
            k0 = list(e.sels.values()).index(reg[0])
            rank = z3.Function(f"rank{k0}", *([z3.IntSort()] * (nd + 1)))
            rk = lambda *a: S(rank(*[_t(q) for q in a]))
        else:
            cells = list(itertools.product(*[range(q) for q in m._shape]))
            tr = [c for c in cells if mf(*c)]

            def rk(*a):
                return tr.index(tuple(int(q) for q in a)) if tuple(a) in tr else 0

        def value(*i):
            r = rk(*i[:nd])
            v = f(r, *i[nd:])
            if reg and isinstance(v, S) and isinstance(r, S):
                # under the mask, sel(rank(i)) is i
                sub = [(fn(r.t), _t(a)) for fn, a in zip(reg[0][4], i[:nd])]
                g = lambda t: None if t is None else z3.substitute(t, *sub)
                v = S(g(v.t), g(v.ninf), g(v.pinf))
            return v

        x.write(
            lambda *i: smt.ite(mf(*i[:nd]), cast(value(*i), d), old(*i))
            if mf(*i[:nd]) is not False
            else old(*i)
        )
        return
    kk = k if isinstance(k, tuple) else (k,)
    adv = [
        q
        for q in kk
        if (is_T(q) or isinstance(q, (torch.Tensor, np.ndarray))) and len(q.shape) > 0 or isinstance(q, (list, range))
    ]
    if adv:
        return set_adv(x, list(kk), v)
    tgt = getitem(x, k)
    if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray):
        v = T_of(v)
    inplace(tgt, v)


def set_adv(x, k, v):
    """x[idx_tensor, ...] = v ; last write wins is not modelled: indices must be
    written with equal values or be distinct -- only injective index tensors
    given by an affine map (arange) are supported."""
    if any(_mask_like(q) for q in k):
        pos = [i for i, q in enumerate(k) if _mask_like(q)][0]
        m = T_of(k[pos])
        mf = mask_fn(m)
        vt = T_of(v)
        if vt.ndim != 0:
            raise Unsupported("masked assignment of a tensor with slices")
        rest = k[:pos] + k[pos + 1 :]
        if not all(isinstance(q, slice) and q == slice(None) for q in rest):
            raise Unsupported("mixed mask assignment")
        old, d, f, nd = x.snap(), x._dtype, vt.snap(), m.ndim
        x.write(lambda *i: smt.ite(mf(*i[pos : pos + nd]), cast(f(), d), old(*i)))
        return
    idxs = [T_of(list(q) if isinstance(q, range) else q) if not isinstance(q, slice) else q for q in k]
    if all(is_T(q) for q in idxs) and all(
        all(isint(s) for s in q._shape) for q in idxs
    ):
        bs = bshape(*[q._shape for q in idxs])
        es = [expand_to(q, bs).snap() for q in idxs]
        vt = expand_to(T_of(v), list(bs) + list(x._shape[len(idxs) :]))
        f, d = vt.snap(), x._dtype
        for c in itertools.product(*[range(s) for s in bs]):
            old = x.snap()
            pos = [e(*c) for e in es]
            pos = [p if not (isint(p) and p < 0) else smt.add(x._shape[j], p) for j, p in enumerate(pos)]

            def nf(*i, old=old, pos=pos, c=c):
                return smt.ite(
                    smt.And([smt.eq(a, b) for a, b in zip(i, pos)]),
                    cast(f(*c, *i[len(pos) :]), d),
                    old(*i),
                )

            x.write(nf)
        return
    # one symbolic-length row index: rows (arange(n), idx) = v
    if len(idxs) == 2 and all(is_T(q) and q.ndim == 1 for q in idxs) and getattr(idxs[0], "_arange", False):
        f1 = idxs[1].snap()
        cur_reg_index(idxs[1], x._shape[1], "assignment index")
        vt = expand_to(T_of(v), [idxs[0]._shape[0]] + list(x._shape[2:]))
        f, d, old = vt.snap(), x._dtype, x.snap()
        n0 = idxs[0]._shape[0]
        x.write(
            lambda *i: smt.ite(
                smt.And(smt.lt(i[0], n0), smt.eq(i[1], f1(i[0]))), cast(f(i[0], *i[2:]), d), old(*i)
            )
        )
        return
    raise Unsupported("advanced assignment")


# --------------------------------------------------------------- dispatcher
def fname(func):
    n = getattr(func, "__name__", str(func))
    return n


_INPL = {"add_": "add", "sub_": "sub", "mul_": "mul", "div_": "div", "clamp_": "clamp",
         "masked_fill_": "masked_fill", "exp_": "exp", "scatter_": "scatter",
         "fill_": None, "zero_": None, "copy_": None, "neg_": "neg", "pow_": "pow",
         "index_fill_": None, "relu_": "relu", "scatter_add_": "scatter_add", "sqrt_": "sqrt",
         "squeeze_": None, "unsqueeze_": None, "log_": "log", "floor_": "floor", "round_": "round"}


def dispatch(func, args, kwargs):
    n = fname(func)
    if n == "__get__":
        # property access on a real tensor cannot reach here for T
        raise Unsupported("property through torch_function")
    if n.startswith("__") and n.endswith("__") and n.strip("_") in OPS and n not in OPS:
        n2 = n.strip("_")
        if n2.startswith("r") and n2[1:] in OPS and n2 not in ("round", "relu", "repeat", "reshape", "roll", "remainder"):
            return OPS[n2[1:]](args[1], args[0])
        return OPS[n2](*args, **kwargs)
    if n in OPS:
        return OPS[n](*args, **kwargs)
    if n in OPS_F:
        return OPS_F[n](*args, **kwargs)
    if n in ("__rsub__", "rsub"):
        return OPS["sub"](args[1], args[0])
    if n in ("__rdiv__", "__rtruediv__"):
        return OPS["div"](args[1], args[0])
    if n in ("__rpow__",):
        return OPS["pow"](args[1], args[0])
    if n in ("__radd__", "__rmul__"):
        return OPS[n[3:-2]](args[1], args[0])
    raise Unsupported(f"torch function {n}")


def np_call(n, args, kw):
    n = {
        "subtract": "sub",
        "multiply": "mul",
        "true_divide": "div",
        "divide": "div",
        "power": "pow",
        "greater": "gt",
        "greater_equal": "ge",
        "less": "lt",
        "less_equal": "le",
        "equal": "eq",
        "not_equal": "ne",
        "absolute": "abs",
        "negative": "neg",
        "concatenate": "cat",
        "clip": "clamp",
        "expand_dims": "unsqueeze",
        "logical_not": "logical_not",
        "amax": "amax",
        "amin": "amin",
        "invert": "bitwise_not",
    }.get(n, n)
    kw = dict(kw)
    if "axis" in kw:
        kw["dim"] = kw.pop("axis")
    if "keepdims" in kw:
        kw["keepdim"] = kw.pop("keepdims")
    kw.pop("dtype", None)
    if n in ("max", "amax"):
        n = "amax"
    if n in ("min", "amin"):
        n = "amin"
    if n in NP_OPS:
        return NP_OPS[n](*args, **kw)
    if n in OPS:
        return OPS[n](*args, **kw)
    raise Unsupported(f"numpy function {n}")


NP_OPS = {}
OPS_F = {}  # factories

from . import ops  # noqa: E402,F401
