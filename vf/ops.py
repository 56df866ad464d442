"""Models of torch / numpy operations (assumed contracts, see selftest.py)."""
import builtins
import math

import numpy as np
import torch

from . import engine, smt
from .engine import All, Any, ArgMax, ArgMin, Max, Min, Prod, Sum, cur
from .smt import S, Unsupported, _t, z3
from .tensor import (
    BOOL, F32, F64, I64, NOGRAD, NP_OPS, OPS, OPS_F, Size, T, T_of, bshape, cast, cint,
    const_T, cur_reg_index, dimeq, ew, expand_to, getitem, gset, idx_vals, inplace, is_f,
    is_T, isint, mask_fn, mask_select, op, promote, res_dtype, same_dim, sdtype, selection, view,
)


def fdt(x):
    d = res_dtype(x)
    return d if is_f(d) else F32


# ------------------------------------------------------------- elementwise
def _un(name, fn, dt=None, keepg=True):
    def f(x, *a, **k):
        k.pop("out", None)
        x = T_of(x)
        d = dt(x) if dt else x.dtype
        return ew(fn, x, dtype=d, keepg=keepg)

    OPS[name] = f


_un("neg", smt.neg)
OPS["negative"] = OPS["neg"]
_un("abs", lambda v: smt.ite(smt.le(0, v), v, smt.neg(v)))
_un("exp", smt.exp, fdt)
_un("log", smt.log, fdt)
_un("log1p", lambda v: smt.log(smt.add(1.0, v)), fdt)
_un("sqrt", smt.sqrt, fdt)
_un("square", lambda v: smt.mul(v, v))
_un("reciprocal", lambda v: smt.div(1.0, v), fdt)
_un("sigmoid", lambda v: _sig(v), fdt)
_un("tanh", lambda v: _tanh(v), fdt)
_un("atanh", lambda v: _atanh(v), fdt)
_un("relu", lambda v: smt.ite(smt.le(v, 0), smt.mul(v, 0), v))
_un("sign", lambda v: smt.ite(smt.lt(0, v), 1, smt.ite(smt.lt(v, 0), -1, 0)))
_un("floor", lambda v: smt.floor(v))
_un("ceil", lambda v: smt.ceil(v))
_un("trunc", lambda v: smt.toint(v))
_un("logical_not", lambda v: smt.lnot(v), lambda x: BOOL)
_un("isnan", lambda v: False, lambda x: BOOL)
_un("isinf", lambda v: smt.S(smt._or(smt.ninf_of(v), smt.pinf_of(v))) if smt.has_inf(v) else False, lambda x: BOOL)
_un("isfinite", lambda v: smt.lnot(smt.S(smt._or(smt.ninf_of(v), smt.pinf_of(v)))) if smt.has_inf(v) else True, lambda x: BOOL)
_un("erf", lambda v: smt.S(smt.rfun("erf", v)) if isinstance(v, S) else math.erf(v), fdt)


def _sig(v):
    if smt.is_num(v):
        return 1 / (1 + math.exp(-v))
    return smt.S(smt.rfun("sigmoid", v))


def _tanh(v):
    if smt.is_num(v):
        return math.tanh(v)
    return smt.S(smt.rfun("tanh", v))


def _atanh(v):
    if smt.is_num(v):
        return math.atanh(v)
    if z3.is_app(v.t) and v.t.decl().name() == "fn_tanh":
        return S(v.t.arg(0))
    t = z3.simplify(smt._real(smt._arith(v))) if isinstance(v, S) and not smt.has_inf(v) else None
    if t is not None and t.decl().name() == "fn_tanh":
        return smt.S(t.arg(0))
    return smt.S(smt.rfun("atanh", v))


@op("bitwise_not", "invert")
def _bnot(x):
    x = T_of(x)
    if x.dtype == BOOL:
        return ew(smt.lnot, x, dtype=BOOL)
    if is_f(x.dtype):
        raise TypeError("bitwise_not on float")
    return ew(lambda v: smt.sub(-1, v), x, dtype=x.dtype)


def _to(d):
    return lambda x, *a, **k: _cast(x, d)


def _cast(x, d):
    x = T_of(x)
    if x.dtype == d:
        return x
    f = x.snap()
    r = T(x._shape, lambda *i: cast(f(*i), d), d, x._g if is_f(d) else frozenset(), x._row)
    return r


for n, d in (("float", F32), ("double", F64), ("long", I64), ("int", torch.int32), ("bool", BOOL),
             ("half", torch.float16), ("short", torch.int16)):
    OPS[n] = _to(d)


_NPD = {np.float32: F32, np.float64: F64, np.int64: I64, np.int32: torch.int32, np.bool_: BOOL,
        builtins.float: F32, builtins.int: I64, builtins.bool: BOOL, "float32": F32, "int64": I64}


@op("to", "type", "astype")
def _to_any(x, *a, **k):
    d = k.get("dtype")
    for q in a:
        if isinstance(q, torch.dtype):
            d = q
        elif is_T(q) or isinstance(q, torch.Tensor):
            d = q.dtype
        elif isinstance(q, str) and q.startswith("torch.") and "Tensor" in q:
            d = {"FloatTensor": F32, "LongTensor": I64, "BoolTensor": BOOL, "DoubleTensor": F64}[q.split(".")[-1]]
        elif not isinstance(q, str) and q in _NPD:
            d = _NPD[q]
        elif isinstance(q, type) and issubclass(q, np.generic):
            d = torch.from_numpy(np.zeros(1, dtype=q)).dtype
        elif hasattr(q, "real"):
            d = q.real.dtype
        elif isinstance(q, type(torch.FloatTensor)) and q is not type:
            nm = getattr(q, "__name__", str(q))
            d = {"FloatTensor": F32, "LongTensor": I64, "BoolTensor": BOOL, "DoubleTensor": F64, "ByteTensor": torch.uint8}.get(nm, d)
    return x if d is None else _cast(x, d)


@op("type_as")
def _type_as(x, o):
    return _cast(x, o.dtype)


@op("clone", "contiguous_copy", "copy")
def _clone(x, *a, **k):
    f = T_of(x).snap()
    return T(x._shape, f, x.dtype, x._g, x._row)


@op("contiguous", "cpu", "cuda", "requires_grad_", "pin_memory", "share_memory_", "retain_grad", "asnumpy", "positive", "conj")
def _ident(x, *a, **k):
    return x


@op("detach", "detach_")
def _detach(x, *a, **k):
    r = view(x, x._shape, lambda *i: i, lambda *i: (True, i))
    r._g = frozenset()
    r._row = x._row
    return r


def _bin(name, fn, dt=None):
    def f(a, b, *r, **k):
        k.pop("out", None)
        alpha = k.pop("alpha", None)
        k.pop("rounding_mode", None)
        if alpha is not None:
            b = OPS["mul"](b, alpha)
        return ew(fn, a, b, dtype=dt(a, b) if dt else None, keepg=True)

    OPS[name] = f


def _fdt2(a, b):
    d = res_dtype(a, b)
    return d if is_f(d) else F32


def _b2(a, b):
    return BOOL


_bin("add", smt.add)
_bin("sub", smt.sub)
OPS["subtract"] = OPS["sub"]
_bin("mul", smt.mul)
OPS["multiply"] = OPS["mul"]


@op("div", "true_divide", "divide", "truediv")
def _div(a, b, *, rounding_mode=None, out=None):
    if rounding_mode == "floor":
        return OPS["floor_divide"](a, b)
    if rounding_mode == "trunc":
        raise Unsupported("trunc division")
    return ew(smt.div, a, b, dtype=_fdt2(a, b))


_bin("floor_divide", smt.floordiv)
OPS["floordiv"] = OPS["floor_divide"]
_bin("remainder", smt.mod)
OPS["mod"] = OPS["fmod"] = OPS["remainder"]
_bin("pow", smt.power)
OPS["float_power"] = OPS["pow"]
_bin("eq", smt.eq, _b2)
_bin("ne", lambda a, b: smt.lnot(smt.eq(a, b)), _b2)
_bin("lt", smt.lt, _b2)
_bin("le", smt.le, _b2)
_bin("gt", smt.gt, _b2)
_bin("ge", smt.ge, _b2)
_bin("maximum", smt.smax)
_bin("minimum", smt.smin)
_bin("logical_and", lambda a, b: smt.And(a, b), _b2)
_bin("logical_or", lambda a, b: smt.Or(a, b), _b2)
_bin("logical_xor", lambda a, b: smt.lnot(smt.eq(smt.tobool(a), smt.tobool(b))), _b2)


def _bit(fn):
    def f(a, b):
        d = res_dtype(a, b)
        if is_f(d):
            raise RuntimeError("bitwise op on float")
        return ew(fn, a, b, dtype=d)

    return f


OPS["bitwise_and"] = OPS["and"] = _bit(smt.land)
OPS["bitwise_or"] = OPS["or"] = _bit(smt.lor)
OPS["bitwise_xor"] = OPS["xor"] = _bit(lambda a, b: smt.lnot(smt.eq(smt.tobool(a), smt.tobool(b))))
for _n in ("gt", "ge", "lt", "le", "eq", "ne"):
    OPS["greater" if _n == "gt" else "less" if _n == "lt" else "_x" + _n] = OPS[_n]


@op("equal")
def _equal(a, b):
    a, b = T_of(a), T_of(b)
    if len(a._shape) != len(b._shape) or not all(dimeq(p, q) for p, q in zip(a._shape, b._shape)):
        return False
    fa, fb = a.snap(), b.snap()

    def go(j, pre):
        if j == len(a._shape):
            return smt.eq(fa(*pre), fb(*pre))
        return All(a._shape[j], lambda k: go(j + 1, pre + [k]))

    return bool(go(0, []))


@op("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = T_of(a), T_of(b)
    return bool(
        OPS["all"](OPS["le"](OPS["abs"](OPS["sub"](a, b)), OPS["add"](atol, OPS["mul"](rtol, OPS["abs"](b))))).item()
    )


@op("where")
def _where(c, a=None, b=None):
    if a is None:
        return OPS["nonzero"](c, as_tuple=True)
    d = res_dtype(a, b)
    return ew(lambda q, x, y: smt.ite(q, cast(x, d), cast(y, d)), c, a, b, dtype=d)


@op("clamp", "clip")
def _clamp(x, min=None, max=None, *a, **k):
    lo = k.get("a_min", min)
    hi = k.get("a_max", max)
    r = x
    if lo is not None:
        if smt.is_num(lo) and lo == -smt.INF:
            pass
        else:
            r = ew(lambda v, m: smt.ite(smt.lt(v, m), m, v), r, lo, dtype=res_dtype(x, lo))
    if hi is not None:
        if smt.is_num(hi) and hi == smt.INF:
            pass
        else:
            r = ew(lambda v, m: smt.ite(smt.lt(m, v), m, v), r, hi, dtype=res_dtype(x, hi))
    return r


OPS["clamp_min"] = lambda x, m: _clamp(x, min=m)
OPS["clamp_max"] = lambda x, m: _clamp(x, max=m)


@op("masked_fill")
def _masked_fill(x, m, v):
    x = T_of(x)
    return ew(lambda q, a, b: smt.ite(q, cast(b, x.dtype), a), m, x, v, dtype=x.dtype)


def _mk_inpl(name, base):
    def f(x, *a, **k):
        inplace(x, OPS[base](x, *a, **k))
        return x

    OPS[name] = f


for _n in ("add", "sub", "mul", "div", "clamp", "exp", "neg", "pow", "relu", "sqrt", "log", "floor", "masked_fill", "scatter",
           "scatter_add", "clamp_min", "clamp_max"):
    if _n not in ("scatter", "scatter_add"):
        _mk_inpl(_n + "_", _n)


@op("fill_", "fill")
def _fill_(x, v):
    inplace(x, v)
    return x


@op("zero_")
def _zero_(x):
    inplace(x, 0)
    return x


@op("copy_")
def _copy_(x, v, *a, **k):
    inplace(x, v)
    return x


# -------------------------------------------------------------- shape ops
@op("size")
def _size(x, d=None):
    x = T_of(x)
    return x._shape if d is None else x._shape[d]


@op("dim", "ndimension")
def _dim(x):
    return len(x._shape)


@op("numel", "nelement")
def _numel(x):
    return x._shape.numel()


OPS["element_size"] = lambda x: 4
OPS["get_device"] = lambda x: -1
OPS["is_floating_point"] = lambda x: is_f(x.dtype)
OPS["is_contiguous"] = lambda x: True
OPS["is_complex"] = lambda x: False
OPS["backward"] = lambda x, *a, **k: None
OPS["register_hook"] = lambda x, *a, **k: None
OPS["is_tensor"] = lambda x: True
OPS["__len__"] = lambda x: len(x)


def nd(d, n):
    d = int(d)
    if not -n <= d < n:
        raise IndexError("Dimension out of range")
    return d + n if d < 0 else d


@op("unsqueeze")
def _unsq(x, dim):
    x = T_of(x)
    d = nd(dim, x.ndim + 1)
    sh = list(x._shape)
    sh.insert(d, 1)
    r = view(
        x,
        sh,
        lambda *i: list(i[:d]) + list(i[d + 1 :]),
        lambda *b: (True, list(b[:d]) + [0] + list(b[d:])),
    )
    if x._row is not None and d < x.ndim:
        row = x._row
        r._row = lambda *i: row(*i[:d], *i[d + 1 :])
    return r


@op("squeeze")
def _sq(x, dim=None):
    x = T_of(x)

    def one(s):
        if isint(s):
            return s == 1
        return cur().fork(_t(smt.eq(s, 1)))

    if dim is None:
        drop = [j for j, s in enumerate(x._shape) if one(s)]
    else:
        ds = dim if isinstance(dim, (tuple, list)) else [dim]
        drop = [nd(q, x.ndim) for q in ds if x.ndim and one(x._shape[nd(q, x.ndim)])]
    keep = [j for j in range(x.ndim) if j not in drop]

    def fwd(*i):
        r = [0] * x.ndim
        for p, j in enumerate(keep):
            r[j] = i[p]
        return r

    return view(x, [x._shape[j] for j in keep], fwd, lambda *b: (True, [b[j] for j in keep]))


@op("permute")
def _permute(x, *dims, **k):
    if "dims" in k:
        dims = k["dims"]
    if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
        dims = dims[0]
    ds = [nd(d, x.ndim) for d in dims]
    assert sorted(ds) == list(range(x.ndim)), "permute dims"

    def fwd(*i):
        r = [0] * x.ndim
        for p, j in enumerate(ds):
            r[j] = i[p]
        return r

    v = view(x, [x._shape[j] for j in ds], fwd, lambda *b: (True, [b[j] for j in ds]))
    if x._row is not None and ds[-1] == x.ndim - 1:
        row = x._row
        v._row = lambda *i: row(*fwd(*i, 0)[:-1])
    return v


@op("transpose", "swapaxes")
def _transpose(x, a=None, b=None, **k):
    if a is None and "dim0" not in k:
        return OPS["permute"](x, *reversed(range(x.ndim)))
    a = k.get("dim0", a)
    b = k.get("dim1", b)
    if isinstance(a, (tuple, list)):
        return OPS["permute"](x, *a)
    ds = list(range(x.ndim))
    a, b = nd(a, x.ndim), nd(b, x.ndim)
    ds[a], ds[b] = ds[b], ds[a]
    return _permute(x, *ds)


@op("t")
def _tt(x):
    return _transpose(x, 0, 1) if x.ndim == 2 else x


def _factors(n):
    """multiplicative factors of a dimension"""
    if isint(n):
        return [n]
    t = z3.simplify(n.t)

    def go(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            r = []
            for c in t.children():
                r += go(c)
            return r
        if z3.is_int_value(t):
            return [t.as_long()]
        return [S(t)]

    return go(t)


def _prodl(l):
    r = 1
    for x in l:
        r = smt.mul(r, x)
    return r


def dimdiv(total, part):
    """total / part as factor lists, or None"""
    a = [f for q in total for f in _factors(q)]
    b = [f for q in part for f in _factors(q)]
    c = 1
    num = []
    for f in a:
        if isint(f):
            c *= f
        else:
            num.append(f)
    den = 1
    for f in b:
        if isint(f):
            den *= f
        else:
            for j, g in enumerate(num):
                if g.t.eq(f.t):
                    del num[j]
                    break
            else:
                return None
    if den == 0 or c % den:
        return None
    return smt.mul(c // den, _prodl(num)) if (c // den) != 1 or not num else _prodl(num)


def eqprod(a, b):
    p, q = _prodl(a), _prodl(b)
    if isint(p) and isint(q):
        return p == q
    if isint(p) or isint(q):
        return False
    return z3.simplify(p.t).eq(z3.simplify(q.t)) or z3.is_true(z3.simplify(p.t == q.t))


@op("reshape", "view")
def _reshape(x, *shape, **k):
    x = T_of(x)
    if "shape" in k:
        shape = (k["shape"],)
    if len(shape) == 1 and isinstance(shape[0], torch.dtype):
        raise Unsupported("view(dtype)")
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    shape = [cint(s) for s in shape]
    old = list(x._shape)
    if any(isint(s) and s == -1 for s in shape):
        j = [isint(s) and s == -1 for s in shape].index(True)
        rest = shape[:j] + shape[j + 1 :]
        q = dimdiv(old, rest)
        if q is None:
            p = _prodl(old)
            r = _prodl(rest)
            q = smt.floordiv(p, r)
            if engine.have() and not bool(smt.eq(smt.mul(q, r), p)):
                raise RuntimeError("shape is invalid for input")
            if not engine.have() and q * r != p:
                raise RuntimeError("shape is invalid for input")
        shape[j] = q
    if not eqprod(old, shape):
        p, q = _prodl(old), _prodl(shape)
        if not (bool(smt.eq(p, q))):
            raise RuntimeError(f"shape '{shape}' is invalid for input of size {p}")
    # group matching
    groups = []
    i = j = 0
    while i < len(old) or j < len(shape):
        if i < len(old) and j < len(shape) and same_dim(old[i], shape[j]):
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        if i < len(old) and isint(old[i]) and old[i] == 1:
            groups.append(([i], []))
            i += 1
            continue
        if j < len(shape) and isint(shape[j]) and shape[j] == 1:
            groups.append(([], [j]))
            j += 1
            continue
        # extend a group until the products agree
        best = None
        for ii in range(i + 1, len(old) + 1):
            for jj in range(j + 1, len(shape) + 1):
                if eqprod(old[i:ii], shape[j:jj]):
                    best = (ii, jj)
                    break
            if best:
                break
        if best is None:
            best = (len(old), len(shape))
        groups.append((list(range(i, best[0])), list(range(j, best[1]))))
        i, j = best

    def conv(idx, src, dst, gs, gd):
        """indices over src dims (gs) -> indices over dst dims (gd)"""
        if len(gs) == 1 and len(gd) == 1:
            return {gd[0]: idx[gs[0]]}
        if not gd:
            return {}
        if not gs:
            return {q: 0 for q in gd}
        flat = idx[gs[0]]
        for q in gs[1:]:
            flat = smt.mix(flat, src[q], idx[q])
        out = {}
        for q in reversed(gd[1:]):
            out[q] = smt.mod(flat, dst[q])
            flat = smt.floordiv(flat, dst[q])
        out[gd[0]] = flat
        return out

    def fwd(*idx):
        r = [0] * len(old)
        for go, gn in groups:
            for a, b in conv(idx, shape, old, gn, go).items():
                r[a] = b
        return r

    def inv(*b):
        r = [0] * len(shape)
        for go, gn in groups:
            for a, v in conv(b, old, shape, go, gn).items():
                r[a] = v
        return True, r

    v = view(x, shape, fwd, inv)
    if x._row is not None and old and shape and groups[-1] == ([len(old) - 1], [len(shape) - 1]):
        row = x._row
        v._row = lambda *i: row(*fwd(*i, 0)[:-1])
    elif x._tile is not None and len(shape) > 1 and same_dim(shape[-1], x._tile[2]):
        row, lead, _ = x._tile
        idx = _reshape(T(lead, lambda *i: i), *shape[:-1])
        v._row = lambda *i: row(*idx.at(*i))
    return v


@op("view_as", "reshape_as")
def _view_as(x, o):
    return _reshape(x, *o.shape)


@op("flatten", "ravel")
def _flatten(x, start_dim=0, end_dim=-1):
    x = T_of(x)
    if x.ndim == 0:
        return _reshape(x, 1)
    a, b = nd(start_dim, x.ndim), nd(end_dim, x.ndim)
    return _reshape(x, *x._shape[:a], _prodl(x._shape[a : b + 1]), *x._shape[b + 1 :])


@op("expand", "broadcast_to")
def _expand(x, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    shape = [cint(s) for s in shape]
    off = len(shape) - x.ndim
    sh = [
        x._shape[j - off] if (isint(s) and s == -1) else s for j, s in enumerate(shape)
    ]
    return expand_to(x, sh)


@op("expand_as")
def _expand_as(x, o):
    return expand_to(x, o.shape)


@op("broadcast_tensors")
def _bt(*ts):
    if len(ts) == 1 and isinstance(ts[0], (tuple, list)):
        ts = ts[0]
    ts = [T_of(t) for t in ts]
    sh = bshape(*[t._shape for t in ts])
    return [expand_to(t, sh) for t in ts]


@op("repeat", "tile")
def _repeat(x, *reps, **k):
    if "repeats" in k:
        reps = (k["repeats"],)
    if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
        reps = reps[0]
    reps = [cint(r) for r in reps]
    x = T_of(x)
    off = len(reps) - x.ndim
    assert off >= 0, "Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor"
    f = x.snap()
    sh = []
    for j, r in enumerate(reps):
        d = x._shape[j - off] if j >= off else 1
        sh.append(smt.mul(r, d))

    def fwd(*i):
        out = []
        for j in range(off, len(reps)):
            d = x._shape[j - off]
            if isint(reps[j]) and reps[j] == 1:
                out.append(i[j])
            elif isint(d) and d == 1:
                out.append(0)
            else:
                out.append(smt.mod(i[j], d))
        return out

    r = T(sh, lambda *i: f(*fwd(*i)), x.dtype, x._g)
    if x._row is not None and isint(reps[-1]) and reps[-1] == 1:
        row = x._row
        r._row = lambda *i: row(*fwd(*i, 0)[:-1])
    elif x._row is not None and len(reps) == x.ndim:
        # the last dimension is reps[-1] copies of a whole row
        row, m = x._row, len(reps) - 1
        lead = list(sh[:-1]) + [reps[-1]]
        r._tile = (lambda *i: row(*fwd(*i[:-1], 0)[:m]), lead, x._shape[-1])
    return r


@op("repeat_interleave")
def _ri(x, n=None, dim=None, repeats=None, axis=None, **k):
    dim = axis if dim is None else dim
    n = repeats if n is None else n
    x = T_of(x)
    if isinstance(n, torch.Tensor):
        n = n.reshape(-1).tolist()
        if len(n) != 1:
            raise Unsupported("repeat_interleave(tensor)")
        n = n[0]
    if is_T(n) and n.ndim == 1 and smt.is_num(n._shape[0]) and n._shape[0] == 1:
        n = n[0]
    n = cint(n) if not (is_T(n) and n.ndim) else n
    if is_T(n):
        raise Unsupported("repeat_interleave(tensor)")
    if dim is None:
        x = _flatten(x)
        dim = 0
    d = nd(dim, x.ndim)
    f = x.snap()
    sh = list(x._shape)
    sh[d] = smt.mul(sh[d], n)

    def fwd(*i):
        i = list(i)
        i[d] = smt.floordiv(i[d], n)
        return i

    r = T(sh, lambda *i: f(*fwd(*i)), x.dtype, x._g)
    if x._row is not None and d < x.ndim - 1:
        row = x._row
        r._row = lambda *i: row(*fwd(*i, 0)[:-1])
    return r


@op("cat", "concat", "hstack_")
def _cat(ts, dim=0, **k):
    ts = [T_of(t) for t in ts]
    ts = [t for t in ts if not (t.ndim == 1 and isint(t._shape[0]) and t._shape[0] == 0)] or ts[:1]
    d = nd(dim, ts[0].ndim)
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = promote(dt, t.dtype)
        if t.ndim != ts[0].ndim:
            raise RuntimeError("Tensors must have same number of dimensions")
        for j in range(t.ndim):
            if j != d and not dimeq(t._shape[j], ts[0]._shape[j]):
                raise RuntimeError("Sizes of tensors must match except in dimension")
    sh = list(ts[0]._shape)
    offs = [0]
    for t in ts:
        offs.append(smt.add(offs[-1], t._shape[d]))
    sh[d] = offs[-1]
    fs = [t.snap() for t in ts]

    def fn(*i):
        k = i[d]
        if isint(k):
            for j in range(len(ts)):
                if isint(offs[j + 1]):
                    if k < offs[j + 1]:
                        return cast(fs[j](*i[:d], k - offs[j], *i[d + 1 :]), dt)
                else:
                    break
        j = len(ts) - 1
        r = cast(fs[j](*i[:d], smt.sub(k, offs[j]), *i[d + 1 :]), dt)
        for j in range(len(ts) - 2, -1, -1):
            c = smt.lt(k, offs[j + 1])
            if c is False:
                continue
            # out-of-range branches are not evaluated on concrete operands
            if isint(ts[j]._shape[d]) and ts[j]._shape[d] == 1:
                kk = 0
            else:
                kk = smt.sub(k, offs[j])
            r = smt.ite(c, cast(fs[j](*i[:d], kk, *i[d + 1 :]), dt), r)
        return r

    r = T(sh, fn, dt, gset(*ts))
    if all(t._row is not None for t in ts):
        if d < ts[0].ndim - 1:
            rows = [t._row for t in ts]

            def rw(*i):
                k = i[d]
                r = rows[-1](*i[:d], smt.sub(k, offs[len(ts) - 1]), *i[d + 1 :])
                for j in range(len(ts) - 2, -1, -1):
                    c = smt.lt(k, offs[j + 1])
                    a = rows[j](*i[:d], smt.sub(k, offs[j]), *i[d + 1 :])
                    if c is True:
                        r = a
                    elif c is not False:
                        r = z3.If(_t(c), a, r)
                return r

            r._row = rw
        else:
            r._parts = ts
            rows = [t._row for t in ts]
            pc = smt.uf(f"rowcat{len(ts)}", *([engine_row()] * (len(ts) + 1)))
            r._row = lambda *i: pc(*[q(*i) for q in rows])
    elif d == ts[0].ndim - 1 and any(t._row is not None for t in ts):
        r._parts = ts
    return r


def engine_row():
    from .ctx import Row

    return Row


@op("stack")
def _stack(ts, dim=0, **k):
    ts = [T_of(t) for t in ts]
    d = nd(dim, ts[0].ndim + 1)
    return _cat([_unsq(t, d) for t in ts], d)


OPS["vstack"] = lambda ts: _cat([t if t.ndim > 1 else _unsq(T_of(t), 0) for t in ts], 0)
OPS["hstack"] = lambda ts: _cat(ts, 0 if T_of(ts[0]).ndim == 1 else 1)
NP_OPS["stack"] = lambda ts, dim=0, **k: _stack(ts, dim)
NP_OPS["cat"] = lambda ts, dim=0, **k: _cat(ts, dim)


@op("split", "chunk_")
def _split(x, sizes, dim=0):
    d = nd(dim, x.ndim)
    n = x._shape[d]
    if isinstance(sizes, int):
        if not isint(n):
            raise Unsupported("split of a symbolic dimension")
        sizes = [sizes] * (n // sizes) + ([n % sizes] if n % sizes else [])
    out = []
    o = 0
    for s in sizes:
        out.append(_narrow(x, d, o, s))
        o = smt.add(o, s)
    return tuple(out)


@op("chunk")
def _chunk(x, n, dim=0):
    d = nd(dim, x.ndim)
    m = x._shape[d]
    if not isint(m):
        q = dimdiv([m], [n])
        if q is None:
            raise Unsupported("chunk of a symbolic dimension")
        return _split(x, [q] * n, d)
    s = -(-m // n)
    return _split(x, s, d)


@op("narrow")
def _narrow(x, dim, start, length):
    d = nd(dim, x.ndim)
    return getitem(x, tuple([slice(None)] * d + [slice(start, smt.add(start, length))]))


@op("select")
def _select(x, dim, i):
    d = nd(dim, x.ndim)
    return getitem(x, tuple([slice(None)] * d + [i]))


@op("unbind")
def _unbind(x, dim=0):
    d = nd(dim, x.ndim)
    n = x._shape[d]
    if not isint(n):
        raise Unsupported("unbind symbolic")
    return tuple(_select(x, d, i) for i in range(n))


@op("flip")
def _flip(x, *dims, **k):
    if "dims" in k:
        dims = (k["dims"],)
    if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
        dims = dims[0]
    ds = [nd(d, x.ndim) for d in dims]
    f = x.snap()

    def fn(*i):
        i = [
            smt.sub(smt.sub(x._shape[j], 1), q) if j in ds else q for j, q in enumerate(i)
        ]
        return f(*i)

    return T(x._shape, fn, x.dtype, x._g)


@op("roll")
def _roll(x, shifts, dims=None):
    if dims is None:
        raise Unsupported("roll")
    if isinstance(dims, (tuple, list)):
        if len(dims) != 1:
            raise Unsupported("roll")
        dims, shifts = dims[0], shifts[0]
    d = nd(dims, x.ndim)
    n = x._shape[d]
    f = x.snap()

    def fn(*i):
        i = list(i)
        i[d] = smt.mod(smt.sub(i[d], shifts), n)
        return f(*i)

    return T(x._shape, fn, x.dtype, x._g)


@op("gather")
def _gather(x, dim, index, **k):
    x, index = T_of(x), T_of(index)
    d = nd(dim, x.ndim)
    if is_f(index.dtype) or index.dtype == BOOL:
        raise RuntimeError("gather(): Expected dtype int64 for index")
    if index.ndim != x.ndim:
        raise RuntimeError("Index tensor must have the same number of dimensions as input tensor")
    ix = idx_vals(index, x._shape[d], "gather index")
    for j in range(x.ndim):
        if j != d and not same_dim(index._shape[j], x._shape[j]):
            if not bool(smt.le(index._shape[j], x._shape[j])):
                raise RuntimeError("Size does not match in gather")
    f = x.snap()

    def fwd(*i):
        i = list(i)
        i[d] = ix(*i)
        return i

    r = T(index._shape, lambda *i: f(*fwd(*i)), x.dtype, x._g)
    return r


NP_OPS["take_along_axis"] = lambda x, idx, dim: _gather(x, dim, idx)


@op("take_along_dim")
def _tad(x, idx, dim):
    return _gather(x, dim, idx)


@op("index_select")
def _index_select(x, dim, index):
    d = nd(dim, x.ndim)
    return getitem(x, tuple([slice(None)] * d + [T_of(index)]))


@op("scatter")
def _scatter(x, dim, index, src=None, value=None, reduce=None):
    if reduce is not None:
        raise Unsupported("scatter reduce")
    x, index = T_of(x), T_of(index)
    d = nd(dim, x.ndim)
    v = T_of(value if src is None else src)
    cur_reg_index(index, x._shape[d], "scatter index") if engine.have() else None
    f, ix, vf = x.snap(), index.snap(), v.snap()
    m = index._shape[d]

    def fn(*i):
        inr = smt.And(
            *[
                smt.lt(i[j], index._shape[j])
                for j in range(x.ndim)
                if j != d and not same_dim(index._shape[j], x._shape[j])
            ]
        )

        def hit(k):
            ii = list(i)
            ii[d] = k
            return smt.eq(ix(*ii), i[d])

        if v.ndim == 0:
            return smt.ite(smt.And(inr, Any(m, hit)), cast(vf(), x.dtype), f(*i))
        if isint(m):
            r = f(*i)
            for k in range(m):
                ii = list(i)
                ii[d] = k
                r = smt.ite(smt.And(inr, hit(k)), cast(vf(*ii), x.dtype), r)
            return r
        # unique writer assumed for symbolic-length scatter of a tensor
        w = ArgMax(m, lambda k: 0, hit)
        ii = list(i)
        ii[d] = w
        return smt.ite(smt.And(inr, Any(m, hit)), cast(vf(*ii), x.dtype), f(*i))

    return T(x._shape, fn, x.dtype, x._g | v._g)


_mk_inpl("scatter_", "scatter")


@op("scatter_add")
def _scatter_add(x, dim, index, src):
    x, index, v = T_of(x), T_of(index), T_of(src)
    d = nd(dim, x.ndim)
    if engine.have():
        cur_reg_index(index, x._shape[d], "scatter index")
    f, ix, vf = x.snap(), index.snap(), v.snap()
    m = index._shape[d]

    def fn(*i):
        inr = smt.And(
            *[
                smt.lt(i[j], index._shape[j])
                for j in range(x.ndim)
                if j != d and not same_dim(index._shape[j], x._shape[j])
            ]
        )

        def term(k):
            ii = list(i)
            ii[d] = k
            return smt.ite(smt.eq(ix(*ii), i[d]), vf(*ii), 0.0 if is_f(x.dtype) else 0)

        return smt.add(f(*i), smt.ite(inr, Sum(m, term), 0.0 if is_f(x.dtype) else 0))

    return T(x._shape, fn, x.dtype, x._g | v._g)


_mk_inpl("scatter_add_", "scatter_add")
OPS["index_add_"] = None
del OPS["index_add_"]


@op("index_fill_")
def _index_fill_(x, dim, index, v):
    d = nd(dim, x.ndim)
    ix = T_of(index)
    f, g = x.snap(), ix.snap()
    if engine.have():
        cur_reg_index(ix, x._shape[d], "index_fill index")
    x.write(lambda *i: smt.ite(Any(ix._shape[0], lambda k: smt.eq(g(k), i[d])), cast(T_of(v).item(), x.dtype), f(*i)))
    return x


@op("index_copy_")
def _index_copy_(x, dim, index, src):
    d = nd(dim, x.ndim)
    ix = T_of(index)
    if not isint(ix._shape[0]):
        raise Unsupported("index_copy symbolic")
    g = ix.snap()
    sf = T_of(src).snap()
    for k in range(ix._shape[0]):
        old = x.snap()
        v = g(k)
        x.write(lambda *i, old=old, v=v, k=k: smt.ite(smt.eq(i[d], v), sf(*i[:d], k, *i[d + 1 :]), old(*i)))
    return x


@op("one_hot")
def _one_hot(x, num_classes=-1):
    x = T_of(x)
    if is_f(x.dtype):
        raise RuntimeError("one_hot is only applicable to index tensor.")
    n = cint(num_classes)
    if isint(n) and n == -1:
        raise Unsupported("one_hot without num_classes")
    f = x.snap()
    if engine.have():
        cur_reg_index(x, n, "one_hot class")
    return T(list(x._shape) + [n], lambda *i: smt.ite(smt.eq(f(*i[:-1]), i[-1]), 1, 0), I64)


def _tri(cmp):
    def f(x, diagonal=0, **k):
        g = x.snap()
        z = 0.0 if is_f(x.dtype) else (False if x.dtype == BOOL else 0)
        return T(
            x._shape,
            lambda *i: smt.ite(cmp(smt.sub(i[-1], i[-2]), diagonal), g(*i), z),
            x.dtype,
            x._g,
        )

    return f


OPS["tril"] = _tri(lambda a, b: smt.le(a, b))
OPS["triu"] = _tri(lambda a, b: smt.le(b, a))


@op("diagonal", "diag")
def _diag(x, *a, **k):
    if a or k:
        raise Unsupported("diag")
    f = x.snap()
    if x.ndim == 2:
        if not dimeq(x._shape[0], x._shape[1]):
            raise Unsupported("diag")
        return T((x._shape[0],), lambda i: f(i, i), x.dtype, x._g)
    return T((x._shape[0], x._shape[0]), lambda i, j: smt.ite(smt.eq(i, j), f(i), 0.0), x.dtype, x._g)


# ------------------------------------------------------------- reductions
def _dims(x, dim):
    if dim is None:
        return list(range(x.ndim))
    if isinstance(dim, (tuple, list)):
        return [nd(d, x.ndim) for d in dim] or list(range(x.ndim))
    return [nd(dim, x.ndim)]


def _kd(k, keepdim):
    return bool(k.get("keepdim", k.get("keepdims", keepdim)))


def red(x, dim, keepdim, fold, dtype, init=None):
    """generic reduction: fold(n, f) over each reduced dim (nested)"""
    x = T_of(x)
    ds = _dims(x, dim)
    f = x.snap()
    keep = [j for j in range(x.ndim) if j not in ds]
    if keepdim:
        sh = [1 if j in ds else x._shape[j] for j in range(x.ndim)]
    else:
        sh = [x._shape[j] for j in keep]

    def fn(*i):
        full = [None] * x.ndim
        for p, j in enumerate(keep):
            full[j] = i[j] if keepdim else i[p]

        def go(r, cur_):
            if r == len(ds):
                return f(*cur_)
            j = ds[r]

            def g(k):
                c = list(cur_)
                c[j] = k
                return go(r + 1, c)

            return fold(x._shape[j], g)

        return cast(go(0, full), dtype)

    return T(sh, fn, dtype, x._g if is_f(dtype) else frozenset())


@op("sum", "nansum")
def _sum(x, dim=None, keepdim=False, dtype=None, **k):
    x = T_of(x)
    keepdim = _kd(k, keepdim)
    d = dtype if isinstance(dtype, torch.dtype) else (x.dtype if is_f(x.dtype) else I64)
    return red(x if is_f(x.dtype) else _cast(x, d), dim, keepdim, Sum, d)


@op("mean")
def _mean(x, dim=None, keepdim=False, dtype=None, **k):
    x = T_of(x)
    if not is_f(x.dtype):
        raise RuntimeError("mean(): could not infer output dtype. Input dtype must be floating point")
    keepdim = _kd(k, keepdim)
    n = _prodl([x._shape[d] for d in _dims(x, dim)])
    return OPS["div"](_sum(x, dim, keepdim), n)


NP_OPS["mean"] = lambda x, dim=None, keepdim=False, **k: _mean(
    T_of(x) if is_f(T_of(x).dtype) else _cast(x, F32), dim, keepdim
)


@op("var")
def _var(x, dim=None, unbiased=True, keepdim=False, correction=None, **k):
    x = T_of(x)
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    keepdim = _kd(k, keepdim)
    corr = correction if correction is not None else (1 if unbiased else 0)
    n = _prodl([x._shape[d] for d in _dims(x, dim)])
    m = _mean(x, dim if dim is not None else None, True) if x.ndim else x
    c = OPS["sub"](x, m)
    return OPS["div"](_sum(OPS["mul"](c, c), dim, keepdim), smt.sub(n, corr))


@op("std")
def _std(x, *a, **k):
    return OPS["sqrt"](_var(x, *a, **k))


NP_OPS["std"] = lambda x, dim=None, ddof=0, **k: OPS["sqrt"](_var(x, dim, correction=ddof))
NP_OPS["var"] = lambda x, dim=None, ddof=0, **k: _var(x, dim, correction=ddof)


@op("prod")
def _prod(x, dim=None, keepdim=False, **k):
    x = T_of(x)
    d = x.dtype if is_f(x.dtype) else I64
    return red(x, dim, _kd(k, keepdim), Prod, d)


@op("any")
def _any(x, dim=None, keepdim=False, **k):
    x = _cast(x, BOOL)
    return red(x, dim, _kd(k, keepdim), Any, BOOL)


@op("all")
def _all(x, dim=None, keepdim=False, **k):
    x = _cast(x, BOOL)
    return red(x, dim, _kd(k, keepdim), All, BOOL)


class MM(tuple):
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def _argidx(x, d, keepdim, sign):
    f = x.snap()
    if keepdim:
        sh = [1 if j == d else s for j, s in enumerate(x._shape)]
    else:
        sh = [s for j, s in enumerate(x._shape) if j != d]

    def w(*i):
        def g(k):
            c = list(i)
            if keepdim:
                c[d] = k
            else:
                c.insert(d, k)
            v = f(*c)
            if x.dtype == BOOL:
                v = smt.toint(v)
            return v if sign > 0 else smt.neg(v)

        return ArgMax(x._shape[d], g)

    n = x._shape[d]

    def val(*i):
        c = list(i)
        if keepdim:
            c[d] = 0
        else:
            c.insert(d, 0)
        if isint(n) and n <= 4 and is_f(x.dtype):
            v = f(*c)
            for k in range(1, n):
                c[d] = k
                v = (smt.smax if sign > 0 else smt.smin)(v, f(*c))
            return v
        c[d] = w(*i)
        return f(*c)

    return T(sh, val, x.dtype, x._g), T(sh, w, I64)


def _check_nonempty(x, d):
    n = x._shape[d]
    if isint(n):
        if n == 0:
            raise IndexError("max(): Expected reduction dim to have non-zero size")
    elif not bool(smt.lt(0, n)):
        raise IndexError("max(): Expected reduction dim to have non-zero size")


def _minmax(sign, binop):
    def f(x, dim=None, keepdim=False, other=None, **k):
        keepdim = _kd(k, keepdim)
        if other is not None:
            return OPS[binop](x, other)
        if is_T(dim) or isinstance(dim, torch.Tensor):
            return OPS[binop](x, dim)
        x = T_of(x)
        if dim is None:
            return _amm(x, None, keepdim, sign)
        d = nd(dim, x.ndim)
        _check_nonempty(x, d)
        return MM(_argidx(x, d, keepdim, sign))

    return f


def _amm(x, dim, keepdim, sign):
    x = T_of(x)
    fold = (lambda n, f: Max(n, f)) if sign > 0 else (lambda n, f: Min(n, f))
    for d in _dims(x, dim):
        _check_nonempty(x, d)
    return red(x, dim, keepdim, fold, x.dtype)


OPS["max"] = _minmax(1, "maximum")
OPS["min"] = _minmax(-1, "minimum")
OPS["amax"] = lambda x, dim=None, keepdim=False, **k: _amm(x, dim, _kd(k, keepdim), 1)
OPS["amin"] = lambda x, dim=None, keepdim=False, **k: _amm(x, dim, _kd(k, keepdim), -1)


def _argmm(sign):
    def f(x, dim=None, keepdim=False, **k):
        x = T_of(x)
        if dim is None:
            x = _flatten(x)
            dim = 0
        d = nd(dim, x.ndim)
        _check_nonempty(x, d)
        return _argidx(x, d, _kd(k, keepdim), sign)[1]

    return f


OPS["argmax"] = _argmm(1)
OPS["argmin"] = _argmm(-1)


def _sorted(x, descending):
    """sort a vector of known length, one order per path; equal values keep their order, as on the CPU"""
    x = T_of(x)
    if x.ndim != 1 or not isint(x._shape[0]):
        raise Unsupported("sort of other than a vector of known length")
    order = []
    for i in range(x._shape[0]):
        k = len(order)
        while k:
            a, b = x.at(i), x.at(order[k - 1])
            if not bool(smt.lt(b, a) if descending else smt.lt(a, b)):
                break
            k -= 1
        order.insert(k, i)
    ids = torch.tensor(order, dtype=torch.int64)
    return MM((_stack([x[i] for i in order]) if order else x, ids))


OPS["sort"] = lambda x, dim=-1, descending=False, **k: _sorted(x, descending)
OPS["argsort"] = lambda x, dim=-1, descending=False, **k: _sorted(x, descending)[1]


def _lin(x, dim, fn, dtype=None):
    """map along dim with access to the whole row: fn(n, rowf, k)"""
    x = T_of(x)
    d = nd(dim, x.ndim)
    f = x.snap()

    def g(*i):
        def rowf(k):
            c = list(i)
            c[d] = k
            return f(*c)

        return fn(x._shape[d], rowf, i[d])

    return T(x._shape, g, dtype or x.dtype, x._g)


def _shift(n, rowf):
    """softmax is shift invariant: drop the addends that do not depend on k"""
    return rowf


def soft_num(n, rowf, k):
    return smt.exp(rowf(k))


def _softmax_s(n, rowf, k):
    rf = rowf
    return smt.div(smt.exp(rf(k)), Sum(n, lambda q: smt.exp(rf(q))))


def _unshift(n, rowf):
    if not engine.have() or isint(smt._clean(n) if not is_T(n) else n):
        return rowf
    e = cur()
    ph = z3.Int(f"ph!{e.depth}")
    e.depth += 1
    try:
        b = rowf(S(ph))
    finally:
        e.depth -= 1
    if not isinstance(b, S):
        return rowf
    nf = b.ninf
    t = z3.simplify(smt._real(smt._arith(smt.fin(b))))
    ms = e._monos(t, ph, [], 0)
    const = [m for m in ms if not m[2] and not m[1]]
    if not const:
        return rowf
    c = None
    for m in const:
        c = m[0] if c is None else c + m[0]
    cs = S(z3.simplify(c))

    def rf(k):
        v = rowf(k)
        return smt.mkext(smt.S(z3.simplify(_t(smt.sub(smt.fin(v), cs)), som=True)), smt.ninf_of(v), smt.pinf_of(v))

    return rf


@op("softmax", "_softmax")
def _softmax(x, dim=None, dtype=None, **k):
    x = T_of(x)
    if dim is None:
        raise Unsupported("softmax without dim")
    return _lin(x, dim, _softmax_s)


@op("log_softmax")
def _log_softmax(x, dim=None, **k):
    def fn(n, rowf, k):
        return smt.sub(rowf(k), smt.log(_pos(Sum(n, lambda q: smt.exp(rowf(q))))))

    return _lin(T_of(x), dim, fn)


def _pos(s):
    return s


@op("logsumexp")
def _lse(x, dim, keepdim=False, **k):
    x = OPS["exp"](x)
    s = _sum(x, dim, keepdim)
    return OPS["log"](s)


@op("cumsum")
def _cumsum(x, dim=0, **k):
    x = T_of(x)
    d = x.dtype if is_f(x.dtype) else I64
    return _lin(x if is_f(x.dtype) else _cast(x, I64), dim, lambda n, f, k: Sum(smt.add(k, 1), f), d)


@op("cumprod")
def _cumprod(x, dim=0, **k):
    x = T_of(x)
    d = x.dtype if is_f(x.dtype) else I64
    return _lin(x, dim, lambda n, f, k: Prod(smt.add(k, 1), f), d)


@op("norm")
def _norm(x, p=2, dim=None, keepdim=False, **k):
    if p not in (2, "fro", 2.0):
        raise Unsupported("norm p")
    return OPS["sqrt"](_sum(OPS["mul"](x, x), dim, keepdim))


# --------------------------------------------------------------- products
@op("matmul", "mm", "__matmul__", "dot", "bmm", "mv", "inner_")
def _matmul(a, b, **k):
    a, b = T_of(a), T_of(b)
    fa, fb = a.snap(), b.snap()
    dt = promote(a.dtype, b.dtype)
    g = a._g | b._g
    if a.ndim == 1 and b.ndim == 1:
        if not dimeq(a._shape[0], b._shape[0]):
            raise RuntimeError("inconsistent tensor size")
        return T((), lambda: Sum(a._shape[0], lambda k: smt.mul(fa(k), fb(k))), dt, g)
    if a.ndim == 2 and b.ndim == 1:
        if not dimeq(a._shape[1], b._shape[0]):
            raise RuntimeError("size mismatch")
        return T((a._shape[0],), lambda i: Sum(b._shape[0], lambda k: smt.mul(fa(i, k), fb(k))), dt, g)
    if a.ndim == 1 and b.ndim == 2:
        if not dimeq(a._shape[0], b._shape[0]):
            raise RuntimeError("size mismatch")
        return T((b._shape[1],), lambda j: Sum(a._shape[0], lambda k: smt.mul(fa(k), fb(k, j))), dt, g)
    if not dimeq(a._shape[-1], b._shape[-2]):
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    bs = bshape(a._shape[:-2], b._shape[:-2]) if (a.ndim > 2 or b.ndim > 2) else ()
    ea = expand_to(a, list(bs) + list(a._shape[-2:])).snap()
    eb = expand_to(b, list(bs) + list(b._shape[-2:])).snap()
    n = len(bs)
    return T(
        list(bs) + [a._shape[-2], b._shape[-1]],
        lambda *i: Sum(
            a._shape[-1], lambda k: smt.mul(ea(*i[:n], i[n], k), eb(*i[:n], k, i[n + 1]))
        ),
        dt,
        g,
    )


@op("ger", "outer")
def _outer(a, b):
    return OPS["mul"](_unsq(a, 1), _unsq(T_of(b), 0))


# ----------------------------------------------------------------- losses
def _redn(x, reduction):
    if reduction == "none":
        return x
    if reduction == "sum":
        return _sum(x)
    return _mean(x)


@op("mse_loss")
def _mse(a, b, size_average=None, reduce=None, reduction="mean", **k):
    d = OPS["sub"](a, b)
    return _redn(OPS["mul"](d, d), reduction)


@op("l1_loss")
def _l1(a, b, size_average=None, reduce=None, reduction="mean", **k):
    return _redn(OPS["abs"](OPS["sub"](a, b)), reduction)


@op("smooth_l1_loss", "huber_loss")
def _sl1(a, b, size_average=None, reduce=None, reduction="mean", beta=1.0, **k):
    def h(p, q):
        d = smt.sub(p, q)
        ad = smt.ite(smt.le(0, d), d, smt.neg(d))
        return smt.ite(
            smt.lt(ad, beta),
            smt.div(smt.mul(0.5, smt.mul(d, d)), beta),
            smt.sub(ad, 0.5 * beta),
        )

    return _redn(ew(h, a, b), reduction)


@op("binary_cross_entropy_with_logits")
def _bcel(x, y, weight=None, size_average=None, reduce=None, reduction="mean", **k):
    def h(p, q):
        # max(x,0) - x*y + log(1+exp(-|x|)), written with the softplus function
        return smt.sub(S(smt.rfun("softplus", p)) if isinstance(p, S) else math.log1p(math.exp(p)), smt.mul(p, q))

    return _redn(ew(h, x, y), reduction)


@op("softplus")
def _softplus(x, *a, **k):
    return ew(lambda p: S(smt.rfun("softplus", p)) if isinstance(p, S) else math.log1p(math.exp(p)), x)


@op("binary_cross_entropy")
def _bce(x, y, weight=None, size_average=None, reduce=None, reduction="mean", **k):
    def h(p, q):
        # torch clamps the logarithms to be >= -100
        lg = lambda v: smt.smax(smt.log(v), -100.0)
        return smt.neg(smt.add(smt.mul(q, lg(p)), smt.mul(smt.sub(1.0, q), lg(smt.sub(1.0, p)))))

    return _redn(ew(h, x, y), reduction)


@op("cross_entropy")
def _ce(x, y, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean", label_smoothing=0.0):
    if weight is not None or label_smoothing:
        raise Unsupported("cross_entropy options")
    y = T_of(y)
    lp = _log_softmax(x, 1)
    if is_f(y.dtype):
        return _redn(_sum(OPS["mul"](OPS["neg"](lp), y), 1), reduction)
    r = _sq(_gather(lp, 1, _unsq(y, 1)), 1)
    return _redn(OPS["neg"](r), reduction)


@op("cartesian_prod")
def _cartesian(*xs):
    xs = [T_of(x) for x in xs]
    ns = [cint(x._shape[0]) for x in xs]
    if len(xs) == 1:
        return xs[0]
    import itertools

    rows = list(itertools.product(*[range(n) for n in ns]))

    def fn(i, j):
        r = None
        for a, row in enumerate(rows):
            for b, k in enumerate(row):
                v = xs[b].at(k)
                r = v if r is None else smt.ite(smt.land(smt.eq(i, a), smt.eq(j, b)), v, r)
        return r

    return T((len(rows), len(xs)), fn, xs[0].dtype)


@op("kl_div")
def _kl_div(x, y, size_average=None, reduce=None, reduction="mean", log_target=False):
    x, y = T_of(x), T_of(y)
    if log_target or size_average is not None or reduce is not None:
        raise Unsupported("kl_div options")
    # 0 * log 0 is 0
    z = OPS["where"](OPS["gt"](y, 0), y, OPS["ones_like"](y))
    r = OPS["sub"](OPS["mul"](y, OPS["log"](z)), OPS["mul"](y, x))
    if reduction == "batchmean":
        return OPS["div"](_sum(r), r._shape[0])
    return _redn(r, reduction)


# --------------------------------------------------------------- selection
@op("masked_select")
def _msel(x, m):
    x, m = T_of(x), T_of(m)
    if x.ndim != m.ndim or not all(same_dim(a, b) for a, b in zip(x._shape, m._shape)):
        sh = bshape(x._shape, m._shape)
        x, m = expand_to(x, sh), expand_to(m, sh)
    return mask_select(x, m, 0)


@op("nonzero", "argwhere")
def _nonzero(x, as_tuple=False):
    x = T_of(x)
    sel, cnt = selection(_cast(x, BOOL))
    if as_tuple:
        return tuple(T((cnt,), lambda i, j=j: sel(i)[j], I64) for j in range(x.ndim))

    def fn(i, j):
        v = sel(i)
        if isint(j):
            return v[int(j)]
        r = v[-1]
        for q in range(len(v) - 2, -1, -1):
            r = smt.ite(smt.eq(j, q), v[q], r)
        return r

    return T((cnt, x.ndim), fn, I64)


NP_OPS["nonzero"] = lambda x: _nonzero(x, True)


# ------------------------------------------------------------- like factories
def _like(v):
    def f(x, fill=None, dtype=None, **k):
        x = T_of(x)
        val = v if v is not None else k.get("fill_value", fill)
        d = dtype if isinstance(dtype, torch.dtype) else x.dtype
        if isinstance(val, (S, T)) or is_T(val):
            val = T_of(val).item()
        return T(x._shape, lambda *i: cast(val, d), d)

    return f


OPS["zeros_like"] = lambda x, **k: _like(0)(x, **k)
OPS["ones_like"] = lambda x, **k: _like(1)(x, **k)
OPS["empty_like"] = lambda x, **k: _like(0)(x, **k)
OPS["full_like"] = lambda x, fill_value=None, **k: _like(None)(x, fill_value, **k)


@op("new_zeros", "new_empty")
def _nz(x, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    return T(shape, lambda *i: cast(0, x.dtype), x.dtype)


@op("new_ones")
def _no(x, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    return T(shape, lambda *i: cast(1, x.dtype), x.dtype)


@op("new_full")
def _nf(x, shape, v, **k):
    return T(shape, lambda *i: cast(v, x.dtype), x.dtype)


@op("new_tensor")
def _nt(x, v, **k):
    return OPS_F["tensor"](v)


def _rand_like(lo, hi):
    def f(x, *a, **k):
        return fresh_tensor(T_of(x)._shape, lo, hi)

    return f


def fresh_tensor(shape, lo=None, hi=None, name="rnd"):
    e = cur()
    f = z3.Function(f"{name}!{e.fresh_n}", *([z3.IntSort()] * len(shape)), z3.RealSort()) if len(shape) else None
    e.fresh_n += 1
    if f is None:
        c = e.fresh(name, z3.RealSort())
        fn = lambda: S(c)
    else:
        fn = lambda *i: S(f(*[_t(q) for q in i]))
    if lo is not None:
        e.assume_forall(list(shape), lambda *i: smt.And(smt.le(lo, fn(*i)), smt.lt(fn(*i), hi)))
    return T(shape, fn, F32)


OPS["rand_like"] = _rand_like(0, 1)
OPS["randn_like"] = _rand_like(None, None)


# --------------------------------------------------------------- factories
def _shape(a, k):
    if "size" in k:
        a = (k.pop("size"),)
    if "shape" in k:
        a = (k.pop("shape"),)
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = a[0]
    return [cint(x) for x in a]


def _dt(k, d=F32):
    q = k.get("dtype")
    if q is None:
        return d
    if isinstance(q, torch.dtype):
        return q
    if q in _NPD:
        return _NPD[q]
    return torch.from_numpy(np.zeros(1, dtype=q)).dtype


def _fac(v):
    def f(*a, **k):
        sh = _shape(a, k)
        d = _dt(k)
        return T(sh, lambda *i: cast(v, d), d)

    return f


OPS_F["zeros"] = OPS_F["empty"] = _fac(0)
OPS_F["ones"] = _fac(1)


def _full(shape, fill_value=None, **k):
    v = fill_value
    if isinstance(v, S) or is_T(v):
        t = T_of(v)
        d = _dt(k, t.dtype)
        v = t.item()
    else:
        d = _dt(k, BOOL if isinstance(v, bool) else I64 if isinstance(v, int) else F32)
    sh = _shape((shape,) if not isinstance(shape, (tuple, list)) else (shape,), {})
    return T(sh, lambda *i: cast(v, d), d)


OPS_F["full"] = _full


def exactdiv(n, d):
    """k with n == k * d for a small concrete k, else None (d > 0)"""
    if isint(n) and isint(d):
        return n // d if n % d == 0 else None
    for k in range(0, 9):
        g = smt.eq(n, smt.mul(k, d))
        if g is True or (g is not False and z3.is_true(z3.simplify(_t(g), som=True))):
            return k
    for k in range(0, 9):
        g = smt.eq(n, smt.mul(k, d))
        if g is not False and cur().entails(_t(g)):
            return k
    return None


def _arange(*a, **k):
    lo, hi, st = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    elif len(a) >= 2:
        lo, hi = a[:2]
        if len(a) == 3:
            st = a[2]
    lo, hi, st = k.get("start", lo), k.get("end", hi), k.get("step", st)
    lo, hi, st = [cint(x) if not isinstance(x, float) else x for x in (lo, hi, st)]
    if isint(lo) and isint(hi) and isint(st):
        n = max(0, math.ceil((hi - lo) / st))
    else:
        n = smt.sub(hi, lo)
        if not (isint(st) and st == 1):
            if not (isint(st) and st > 0):
                if isint(st) and st == -1:
                    n = smt.sub(lo, hi)
                else:
                    n = exactdiv(n, st)
                    if n is None:
                        raise Unsupported("arange step")
            else:
                n = smt.neg(smt.floordiv(smt.neg(n), st))
        if not isint(n) and not cur().entails(_t(smt.le(0, n))):
            n = smt.smax(n, 0)
    d = _dt(k, F32 if any(isinstance(q, float) for q in (lo, hi, st)) else I64)
    r = T((n,), lambda i: cast(smt.add(lo, smt.mul(i, st)), d), d)
    if isint(lo) and lo == 0 and isint(st) and st == 1:
        r._arange = True
    return r


OPS_F["arange"] = OPS_F["range_"] = _arange


def _eye(n, m=None, **k):
    m = n if m is None else m
    d = _dt(k)
    return T((n, m), lambda i, j: cast(smt.ite(smt.eq(i, j), 1, 0), d), d)


OPS_F["eye"] = _eye


def _linspace(a, b, n, **k):
    n = cint(n)
    f = lambda i: smt.add(a, smt.div(smt.mul(smt.sub(b, a), i), smt.sub(n, 1)))
    if isint(n):
        vals = [float(a) + (float(b) - float(a)) * i / (n - 1) if isint(a) or isinstance(a, float) else f(i) for i in range(n)] if n > 1 else [a]
    return T((n,), lambda i: smt.toreal(f(i)), F32)


OPS_F["linspace"] = _linspace


def _tensor(v, dtype=None, **k):
    if is_T(v):
        return _clone(v) if dtype is None else _cast(v, _dt({"dtype": dtype}))
    if isinstance(v, smt.Rep):
        return OPS_F["full"]((v.n,), v.value, **({} if dtype is None else {"dtype": dtype}))
    if isinstance(v, np.ndarray) and v.dtype == object:
        v = v.tolist()
    if isinstance(v, (torch.Tensor, np.ndarray)):
        r = const_T(v)
        return r if dtype is None else _cast(r, _dt({"dtype": dtype}))

    def shp(x):
        if isinstance(x, (list, tuple)):
            return [len(x)] + (shp(x[0]) if x else [])
        if is_T(x) or isinstance(x, torch.Tensor):
            return list(x.shape)
        return []

    def leaves(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                yield from leaves(y)
        else:
            yield x

    sh = shp(v)
    ls = list(leaves(v))
    d = None
    for q in ls:
        dd = sdtype(q)[0]
        d = dd if d is None else promote(d, dd)
    d = d or F32
    if dtype is not None:
        d = _dt({"dtype": dtype})
    elif any(isinstance(q, float) for q in ls):
        d = F32

    def get(x, idx):
        if is_T(x) or isinstance(x, torch.Tensor):
            return T_of(x).at(*idx)
        if not idx:
            return smt._clean(x)
        i = idx[0]
        if isint(i):
            return get(x[int(i)], idx[1:])
        r = get(x[-1], idx[1:])
        for q in range(len(x) - 2, -1, -1):
            r = smt.ite(smt.eq(i, q), get(x[q], idx[1:]), r)
        return r

    return T(sh, lambda *i: cast(get(v, i), d), d)


OPS_F["tensor"] = OPS_F["as_tensor"] = OPS_F["array"] = OPS_F["FloatTensor_"] = _tensor
OPS_F["asarray"] = lambda v, *a, **k: v if is_T(v) else _tensor(v)
OPS_F["from_numpy"] = lambda v: T_of(v)


def _rand(*a, **k):
    return fresh_tensor(_shape(a, k), 0, 1)


OPS_F["rand"] = _rand
OPS_F["randn"] = lambda *a, **k: fresh_tensor(_shape(a, k))


def _randint(*a, **k):
    if len(a) == 2:
        lo, hi, sh = 0, a[0], a[1]
    else:
        lo, hi, sh = a[:3]
    t = fresh_int(sh, lo, hi)
    return t


def fresh_int(shape, lo, hi, name="rndi"):
    e = cur()
    shape = [cint(s) for s in shape]
    f = z3.Function(f"{name}!{e.fresh_n}", *([z3.IntSort()] * len(shape)), z3.IntSort())
    e.fresh_n += 1
    fn = lambda *i: S(f(*[_t(q) for q in i]))
    e.assume_forall(list(shape), lambda *i: smt.And(smt.le(lo, fn(*i)), smt.lt(fn(*i), hi)))
    return T(shape, fn, I64)


OPS_F["randint"] = _randint


@op("multinomial")
def _multinomial(p, num_samples, replacement=False, **k):
    """assumed contract: every drawn index has positive probability"""
    p = T_of(p)
    n = p._shape[-1]
    if not replacement and not (isint(num_samples) and num_samples == 1):
        raise Unsupported("multinomial without replacement")
    sh = list(p._shape[:-1]) + [num_samples]
    r = fresh_int(sh, 0, n, "mn")
    f, g = p.snap(), r.snap()
    cur().assume_forall(sh, lambda *i: smt.lt(0, f(*i[:-1], g(*i))))
    return r


@op("bernoulli")
def _bern(p, *a, **k):
    p = T_of(p)
    r = fresh_int(p._shape, 0, 2, "bern")
    f, g = p.snap(), r.snap()
    cur().assume_forall(
        list(p._shape),
        lambda *i: smt.And(
            smt.implies(smt.eq(g(*i), 1), smt.lt(0, f(*i))),
            smt.implies(smt.eq(g(*i), 0), smt.lt(f(*i), 1)),
        ),
    )
    return _cast(r, F32)


@op("dropout")
def _dropout(x, p=0.5, training=True, **k):
    if training and p > 0:
        raise Unsupported("dropout")
    return x


@op("meshgrid")
def _mesh(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    sh = [t._shape[0] for t in ts]
    return tuple(T(sh, (lambda f, j: lambda *i: f(i[j]))(t.snap(), j), t.dtype, t._g) for j, t in enumerate(ts))


@op("nan_to_num")
def _n2n(x, nan=0.0, posinf=None, neginf=None, **k):
    """NaN is an extended value flagged as both infinities (inf - inf)"""
    fi = torch.finfo(torch.float32)
    pv = fi.max if posinf is None else posinf
    nv = fi.min if neginf is None else neginf

    def f(v):
        if smt.is_num(v):
            return nan if v != v else pv if v == smt.INF else nv if v == -smt.INF else v
        if not smt.has_inf(v):
            return v
        n, p = S(smt.ninf_of(v)) if smt.ninf_of(v) is not None else False, S(smt.pinf_of(v)) if smt.pinf_of(v) is not None else False
        return smt.ite(smt.And(n, p), nan or 0.0, smt.ite(n, nv, smt.ite(p, pv, smt.fin(v))))

    return ew(f, T_of(x))


@op("lerp")
def _lerp(a, b, w):
    return OPS["add"](a, OPS["mul"](w, OPS["sub"](b, a)))


OPS["addcmul"] = lambda a, b, c, value=1: OPS["add"](a, OPS["mul"](value, OPS["mul"](b, c)))


@op("linear")
def _linear(x, w, b=None):
    r = _matmul(x, _tt(T_of(w)))
    return r if b is None else OPS["add"](r, b)


@op("einsum")
def _einsum(eqn, *ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = [T_of(t) for t in ts]
    eqn = eqn.replace(" ", "")
    if "." in eqn:
        raise Unsupported("einsum ellipsis")
    if "->" in eqn:
        l, o = eqn.split("->")
    else:
        l = eqn
        s = "".join(l.split(","))
        o = "".join(sorted(c for c in set(s) if s.count(c) == 1))
    ins = l.split(",")
    dim = {}
    for q, t in zip(ins, ts):
        assert len(q) == t.ndim, "einsum"
        for c, d in zip(q, t._shape):
            if c in dim:
                assert dimeq(dim[c], d), "einsum dims"
            else:
                dim[c] = d
    summed = [c for c in dim if c not in o]
    fs = [t.snap() for t in ts]

    def fn(*i):
        env = dict(zip(o, i))

        def go(r):
            if r == len(summed):
                v = 1
                for q, f in zip(ins, fs):
                    v = smt.mul(v, f(*[env[c] for c in q]))
                return v
            c = summed[r]

            def g(k):
                env[c] = k
                return go(r + 1)

            return Sum(dim[c], g)

        return go(0)

    dt = ts[0].dtype
    for t in ts[1:]:
        dt = promote(dt, t.dtype)
    return T([dim[c] for c in o], fn, dt, gset(*ts))


@op("count_nonzero")
def _cnz(x, dim=None):
    return _sum(_cast(x, BOOL), dim)


NP_OPS["dot"] = _matmul


@op("tensordot")
def _tensordot(a, b, dims=2, **k):
    a, b = T_of(a), T_of(b)
    if isinstance(dims, int):
        da, db = list(range(a.ndim - dims, a.ndim)), list(range(dims))
    else:
        da, db = ([x] if isinstance(x, int) else list(x) for x in dims)
    da, db = [nd(x, a.ndim) for x in da], [nd(x, b.ndim) for x in db]
    if len(da) != 1 or len(db) != 1:
        raise Unsupported("tensordot over several dimensions")
    sa = [a._shape[i] for i in range(a.ndim) if i not in da]
    sb = [b._shape[i] for i in range(b.ndim) if i not in db]
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("tensordot of tensors with more than two dimensions")
    if a.ndim == 2 and da[0] == 0:
        a = a.transpose(0, 1)
    if b.ndim == 2 and db[0] == 1:
        b = b.transpose(0, 1)
    return _matmul(a, b)


@op("diff")
def _diff(x, n=1, dim=-1):
    d = nd(dim, x.ndim)
    m = x._shape[d]
    return OPS["sub"](_narrow(x, d, 1, smt.sub(m, 1)), _narrow(x, d, 0, smt.sub(m, 1)))


@op("layer_norm")
def _ln(x, *a, **k):
    raise Unsupported("layer_norm")
