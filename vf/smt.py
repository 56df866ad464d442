"""Terms, folds, path exploration and obligation discharge.

Numbers are mathematical: torch/numpy floats are reals (plus a -inf / +inf
flag where a contract needs it), integers are unbounded.
"""
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

try:
    sys.path.remove(_VT)
except ValueError:
    pass


class Unsupported(Exception):
    """The engine has no model for a construct: the run is undecided."""


class PathEnd(BaseException):
    """This path is finished (loop cut, or its condition is infeasible)."""


# --------------------------------------------------------------------- scalars
def is_num(x):
    return isinstance(x, (int, float, bool, Fraction)) and not isinstance(x, S)


INF = float("inf")


def lit(x):
    """python number -> z3 literal"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            raise Unsupported("non-finite literal in arithmetic")
        return z3.RealVal(Fraction(repr(x)))
    raise Unsupported(f"literal {type(x)}")


_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


def _np_scalar(x):
    return type(x).__module__ == "numpy" and getattr(x, "shape", None) == ()


class Rep:
    """[value] * n for a symbolic n: only good for building a tensor"""

    def __init__(self, value, n):
        self.value, self.n = value, n


class S:
    """symbolic scalar: z3 term + optional 'is -inf' / 'is +inf' flags"""

    __slots__ = ("t", "ninf", "pinf")
    __array_priority__ = 2000

    def __init__(self, t, ninf=None, pinf=None):
        self.t = t
        self.ninf = ninf  # python None == definitely not
        self.pinf = pinf

    # --- sorts
    @property
    def is_bool(self):
        return self.t.sort().kind() == z3.Z3_BOOL_SORT

    @property
    def is_int(self):
        return self.t.sort().kind() == z3.Z3_INT_SORT

    @property
    def is_real(self):
        return self.t.sort().kind() == z3.Z3_REAL_SORT

    # --- conversions
    def __bool__(self):
        from . import engine

        if self.is_bool:
            return engine.cur().fork(self.t)
        return engine.cur().fork(self.t != 0)

    def __index__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("symbolic value used as a concrete float")

    def __hash__(self):
        return self.t.hash()

    def __repr__(self):
        return f"S({self.t})" + (f"[ninf {self.ninf}]" if self.ninf is not None else "")

    def __format__(self, spec):
        return "<sym>"

    # --- arithmetic
    def __add__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else add(self, o)

    def __radd__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else add(o, self)

    def __sub__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else sub(self, o)

    def __rsub__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else sub(o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)) and len(o) == 1:
            return Rep(o[0], self)
        return NotImplemented if getattr(o, '_is_T', False) else mul(self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)) and len(o) == 1:
            return Rep(o[0], self)
        return NotImplemented if getattr(o, '_is_T', False) else mul(o, self)

    def __truediv__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else div(self, o)

    def __rtruediv__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else div(o, self)

    def __floordiv__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else floordiv(self, o)

    def __rfloordiv__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else floordiv(o, self)

    def __mod__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else mod(self, o)

    def __rmod__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else mod(o, self)

    def __divmod__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else floordiv(self, o), mod(self, o)

    def __pow__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else power(self, o)

    def __rpow__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(ge(self, 0), self, neg(self))

    def __lt__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else lt(self, o)

    def __le__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else le(self, o)

    def __gt__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else lt(o, self)

    def __ge__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else le(o, self)

    def __eq__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else eq(self, o)

    def __ne__(self, o):
        return NotImplemented if getattr(o, '_is_T', False) else lnot(eq(self, o))

    def __and__(self, o):
        return land(self, o)

    def __rand__(self, o):
        return land(o, self)

    def __or__(self, o):
        return lor(self, o)

    def __ror__(self, o):
        return lor(o, self)

    def __xor__(self, o):
        return lnot(eq(tobool(self), tobool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        if self.is_bool:
            return lnot(self)
        return sub(-1, self)

    def __round__(self, n=None):
        raise Unsupported("round")

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def cpu(self):
        return self

    def detach(self):
        return self


def _t(x):
    """z3 term of a finite scalar"""
    if isinstance(x, S):
        return x.t
    if _np_scalar(x):
        x = x.item()
    if is_num(x):
        return lit(x)
    if isinstance(x, z3.ExprRef):
        return x
    if _is_tensor_scalar(x):
        return _t(x.item())
    raise Unsupported(f"not a scalar: {type(x)}")


def _is_tensor_scalar(x):
    return hasattr(x, "item") and hasattr(x, "shape") and len(x.shape) == 0


def wrap(t):
    """simplify trivial literals back to python numbers"""
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    return S(t)


def _arith(x):
    """z3 arithmetic term (bool -> 0/1)"""
    t = _t(x)
    if t.sort().kind() == z3.Z3_BOOL_SORT:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def _clean(x):
    if isinstance(x, S) or is_num(x):
        return x
    if _np_scalar(x):
        return x.item()
    if _is_tensor_scalar(x):
        return _clean(x.item())
    if isinstance(x, z3.ExprRef):
        return S(x)
    raise Unsupported(f"not a scalar: {type(x)}")


def _both(a, b):
    a, b = _clean(a), _clean(b)
    return a, b, is_num(a) and is_num(b)


def ninf_of(x):
    if isinstance(x, S):
        return x.ninf
    if isinstance(x, float) and x == -INF:
        return _TRUE
    return None


def pinf_of(x):
    if isinstance(x, S):
        return x.pinf
    if isinstance(x, float) and x == INF:
        return _TRUE
    return None


def fin(x):
    """finite part"""
    if isinstance(x, S):
        return S(x.t) if (x.ninf is not None or x.pinf is not None) else x
    if isinstance(x, float) and x in (INF, -INF):
        return 0.0
    return x


def has_inf(x):
    return ninf_of(x) is not None or pinf_of(x) is not None


def _or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.simplify(z3.Or(a, b))


def mkext(x, n, p):
    if n is not None and z3.is_false(n):
        n = None
    if p is not None and z3.is_false(p):
        p = None
    if n is None and p is None:
        return x
    if n is not None and p is not None and z3.is_true(n) and z3.is_true(p):
        raise Unsupported("nan")
    if n is not None and z3.is_true(n):
        return -INF
    if p is not None and z3.is_true(p):
        return INF
    return S(_t(x), n, p)


def _real(t):
    return z3.ToReal(t) if t.sort().kind() == z3.Z3_INT_SORT else t


def _harm(a, b):
    """int/real harmonised z3 terms"""
    a, b = _arith(a), _arith(b)
    if a.sort() != b.sort():
        a, b = _real(a), _real(b)
    return a, b


def _is0(x):
    return is_num(x) and x == 0


def _is1(x):
    return is_num(x) and not isinstance(x, bool) and x == 1


def add(a, b):
    a, b, c = _both(a, b)
    if c:
        return a + b
    if has_inf(a) or has_inf(b):
        return mkext(
            add(fin(a), fin(b)), _or(ninf_of(a), ninf_of(b)), _or(pinf_of(a), pinf_of(b))
        )
    if _is0(a) and not (isinstance(a, float) and isinstance(b, S) and not b.is_real):
        return b if not (isinstance(b, S) and b.is_bool) else S(_arith(b))
    if _is0(b) and not (isinstance(b, float) and isinstance(a, S) and not a.is_real):
        return a if not (isinstance(a, S) and a.is_bool) else S(_arith(a))
    x, y = _harm(a, b)
    return S(x + y)


def neg(a):
    a = _clean(a)
    if is_num(a):
        return -a
    if has_inf(a):
        return mkext(neg(fin(a)), pinf_of(a), ninf_of(a))
    return S(-_arith(a))


def sub(a, b):
    a, b, c = _both(a, b)
    if c:
        return a - b
    if has_inf(a) or has_inf(b):
        return add(a, neg(b))
    if _is0(b) and not (isinstance(b, float) and not a.is_real):
        return a if not a.is_bool else S(_arith(a))
    x, y = _harm(a, b)
    return S(x - y)


def mul(a, b):
    a, b, c = _both(a, b)
    if c:
        return a * b
    if has_inf(a) or has_inf(b):
        if has_inf(b):
            a, b = b, a
        if has_inf(b):
            raise Unsupported("inf*inf")
        if is_num(b):
            if b > 0:
                return mkext(mul(fin(a), b), ninf_of(a), pinf_of(a))
            if b < 0:
                return mkext(mul(fin(a), b), pinf_of(a), ninf_of(a))
            raise Unsupported("inf*0")
        # sign unknown
        from . import engine

        if engine.cur().entails(_t(lt(0, b))):
            return mkext(mul(fin(a), b), ninf_of(a), pinf_of(a))
        raise Unsupported("inf * symbolic of unknown sign")
    for p, q in ((a, b), (b, a)):
        if _is0(p):
            return 0.0 if (isinstance(p, float) or (isinstance(q, S) and q.is_real)) else 0
        if _is1(p) and not (isinstance(p, float) and not q.is_real):
            return q if not q.is_bool else S(_arith(q))
    # bool mask times value -> ite (keeps everything linear)
    for p, q in ((a, b), (b, a)):
        if isinstance(p, S) and p.is_bool:
            qq = _spec(p.t, _arith(q))
            return S(z3.If(p.t, qq, z3.IntVal(0) if qq.sort() == z3.IntSort() else z3.RealVal(0)))
    # If(c, 1, 0) * x -> If(c, x, 0)
    for p, q in ((a, b), (b, a)):
        if isinstance(p, S):
            m = _mask01(p.t)
            if m is not None:
                x, y = _harm(p, q)
                y = _spec(m, y)
                return S(z3.If(m, y, z3.RealVal(0) if y.sort() == z3.RealSort() else z3.IntVal(0)))
    x, y = _harm(a, b)
    if x.sort() == z3.RealSort():
        for p, q in ((x, y), (y, x)):
            if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_DIV:
                cq, nq, dq = factors(q)
                ids = {f.get_id() for f in dq if known_pos(f)}
                if ids and _contains(p, ids):
                    r = _cancel(build(Fraction(1), [p] + nq, []) if nq or True else p, build(1 / cq, dq, []))
                    if r is not None:
                        return S(r)
    return S(x * y)


def _spec(m, y):
    """y under the assumption m"""
    if not z3.is_app(y) or y.num_args() == 0:
        return y
    if _contains(y, {m.get_id()}):
        return z3.simplify(z3.substitute(y, (m, z3.BoolVal(True))))
    return y


def _mask01(t):
    """cond when t is structurally If(cond, 1, 0) (possibly under to_real)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        t = t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = t.arg(1), t.arg(2)
        if _numval(a) == 1 and _numval(b) == 0:
            return t.arg(0)
        if _numval(a) == 0 and _numval(b) == 1:
            return z3.Not(t.arg(0))
    return None


def _numval(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return _numval(t.arg(0))
    return None


def div(a, b):
    a, b, c = _both(a, b)
    if c:
        if b == 0:
            raise Unsupported("division by concrete zero")
        return a / b
    if has_inf(b):
        raise Unsupported("division by inf")
    if has_inf(a):
        if is_num(b) and b > 0:
            return mkext(div(fin(a), b), ninf_of(a), pinf_of(a))
        from . import engine

        if engine.cur().entails(_t(lt(0, b))):
            return mkext(div(fin(a), b), ninf_of(a), pinf_of(a))
        raise Unsupported("inf / symbolic")
    if _is1(b) and isinstance(a, S) and a.is_real:
        return a
    x, y = _real(_arith(a)), _real(_arith(b))
    if is_num(b) and b != 0:
        return S(x * lit(Fraction(1) / (Fraction(b) if not isinstance(b, float) else Fraction(repr(b)))))
    if x.decl().kind() == z3.Z3_OP_ITE and _numval(x.arg(1)) == 0 and _numval(x.arg(2)) == 0:
        return 0.0
    if _numval(x) == 0:
        return 0.0
    r = _cancel(x, y)
    if r is not None:
        return wrapr(r) if _numval(r) is not None else S(r)
    return S(x / y)


def floordiv(a, b):
    a, b, c = _both(a, b)
    if c:
        return a // b
    x, y = _arith(a), _arith(b)
    if x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
        r = _mixdiv(x, y)
        if r is not None:
            return wrap(r[0])
        q = _multiple(x, y)
        if q is not None and (is_num(b) or _pos(y)):
            return q
        r = _lindiv(x, b)
        if r is not None:
            return r[0]
        if not (is_num(b) and b > 0):
            from . import engine

            if not engine.cur().entails(y > 0):
                raise Unsupported("floor division by possibly non-positive divisor")
        return S(x / y)
    return S(z3.ToInt(_real(x) / _real(y)))


def mod(a, b):
    a, b, c = _both(a, b)
    if c:
        return a % b
    x, y = _arith(a), _arith(b)
    if x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
        r = _mixdiv(x, y)
        if r is not None:
            return wrap(r[1])
        if _multiple(x, y) is not None and (is_num(b) or _pos(y)):
            return 0
        r = _lindiv(x, b)
        if r is not None:
            return r[1]
        if not (is_num(b) and b > 0):
            from . import engine

            if not engine.cur().entails(y > 0):
                raise Unsupported("mod by possibly non-positive divisor")
        for q, r0, t, n in _MIX.values():
            if n.eq(y):
                d = z3.simplify(x - t)
                if z3.is_int_value(d):
                    return mod(S(r0 + d), b)
        return S(x % y)
    raise Unsupported("real mod")


_MIX = {}


def mix(q, n, r):
    """flat index q*n+r with 0<=r<n; division by n is then exact"""
    if is_num(q) and is_num(n) and is_num(r):
        return q * n + r
    t = z3.simplify(_t(q) * _t(n) + _t(r))
    _MIX[(t.get_id(), _t(n).get_id())] = (_t(q), _t(r), t, _t(n))
    return wrap(t)


def _pos(y):
    from . import engine

    return engine.cur().entails(y > 0)


def _multiple(x, y, upto=12):
    """k such that x is k * y term by term (small constant k)"""
    if not (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_SUB) or x.eq(y)):
        return None
    if x.eq(y):
        return 1
    for k in range(1, upto):
        if z3.is_int_value(z3.simplify(x - k * y)) and z3.simplify(x - k * y).as_long() == 0:
            return k
    return None


def _lindiv(x, n):
    """x = n * q + r with 0 <= r < n, for a constant n and x linear with a
    part divisible by n; None if there is no such split"""
    if not (isinstance(n, int) and n > 0):
        return None
    if n == 1:
        return wrap(x), 0
    t = z3.simplify(x, som=True)
    if not (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL)):
        return (0, wrap(t)) if _within(t, n) else None
    q, r, k = [], [], 0
    for a in t.children() if t.decl().kind() == z3.Z3_OP_ADD else [t]:
        if z3.is_int_value(a):
            k += a.as_long()
            continue
        c, rest = 1, a
        if a.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(a.arg(0)):
            c = a.arg(0).as_long()
            rest = a.arg(1) if a.num_args() == 2 else z3.Product(*a.children()[1:])
        if c % n == 0:
            q.append(z3.IntVal(c // n) * rest)
        else:
            r.append(a)
    if not q and not r:
        return None
    qc, rc = (0, k) if r else divmod(k, n)
    rt = z3.simplify(z3.Sum(*r) + rc) if r else z3.IntVal(rc)
    if r and not _within(rt, n):
        return None
    qt = z3.simplify(z3.Sum(*q) + qc) if q else z3.IntVal(qc)
    return wrap(qt), wrap(rt)


def _within(t, n):
    from . import engine

    return engine.have() and engine.cur().entails(z3.And(t >= 0, t < n))


def _mixdiv(t, n):
    e = _MIX.get((t.get_id(), n.get_id()))
    if e is None:
        t2 = z3.simplify(t)
        e = _MIX.get((t2.get_id(), n.get_id()))
    if e is None:
        return None
    return e[0], e[1]


UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in UF:
        UF[k] = z3.Function(name, *sorts)
    return UF[k]


R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def rfun(name, x):
    return uf("fn_" + name, R, R)(_real(_arith(x)))


def exp(x):
    import math

    x = _clean(x)
    if is_num(x):
        return math.exp(x) if x < 700 else INF
    if has_inf(x):
        if pinf_of(x) is not None:
            from . import engine

            if not engine.cur().entails(z3.Not(_t(S(pinf_of(x)))), rounds=6):
                raise Unsupported("exp(+inf)")
        return ite(S(ninf_of(x)), 0.0, exp(fin(x)))
    return _exp(z3.simplify(_real(_arith(x))))


def _exp(t):
    """exp is a homomorphism: exp of a sum is kept as a product of exps of its
    addends, with negative multiples in the denominator"""
    v = _numval(t)
    if v is not None:
        return 1.0 if v == 0 else S(rfun("exp", S(t)))
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = 1.0
        for a in t.children():
            r = mul(r, _exp(a))
        return r
    if k == z3.Z3_OP_ITE:
        return ite(S(t.arg(0)), _exp(t.arg(1)), _exp(t.arg(2)))
    c, rest = 1, t
    if k == z3.Z3_OP_UMINUS:
        c, rest = -1, t.arg(0)
    elif k == z3.Z3_OP_MUL and _numval(t.arg(0)) is not None:
        c = _numval(t.arg(0))
        o = t.children()[1:]
        rest = o[0]
        for q in o[1:]:
            rest = rest * q
    if rest.decl().kind() == z3.Z3_OP_ITE and c != 1:
        cc = z3.RealVal(str(c))
        return ite(S(rest.arg(0)), _exp(z3.simplify(cc * rest.arg(1))), _exp(z3.simplify(cc * rest.arg(2))))
    if rest.decl().kind() == z3.Z3_OP_ADD and c != 1:
        return _exp(z3.simplify(z3.Sum([z3.RealVal(str(c)) * q for q in rest.children()])))
    if rest.decl().kind() == z3.Z3_OP_UNINTERPRETED and rest.decl().name() == "fn_log" and c in (1, -1) and known_pos(rest.arg(0)):
        y = S(rest.arg(0))
        return y if c == 1 else div(1.0, y)
    if c < 0:
        return div(1.0, S(rfun("exp", S(z3.simplify(z3.RealVal(str(-c)) * rest) if c != -1 else rest))))
    return S(rfun("exp", S(t)))


_POS = {}


def known_pos(t, depth=0):
    """syntactically positive: exp, positive numerals, sums/products/quotients of
    positives, non-empty sums of positive terms"""
    v = _numval(t)
    if v is not None:
        return v > 0
    if depth > 12 or not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = t.decl().name()
        if nm in ("fn_exp", "fn_sigmoid"):
            return True
        from . import engine

        if engine.have():
            e = engine.cur()
            fd = e.folds.get(nm)
            if fd is not None and fd.kind == "Sum":
                ck = (nm, id(e.pc))
                if ck not in e.posmemo:
                    e.posmemo[ck] = known_pos(fd.body, depth + 1) and (not engine.free_ph(fd.n) and not fd.params or all(not engine.has_const(fd.n, q) for q in fd.params)) and e.entails(fd.n >= 1)
                return e.posmemo[ck]
        return False
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        return all(known_pos(c, depth + 1) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return known_pos(t.arg(1), depth + 1) and known_pos(t.arg(2), depth + 1)
    return False


def factors(t):
    """(numeral, numerator factors, denominator factors)"""
    c, num, den = Fraction(1), [], []
    stack = [(t, 1)]
    while stack:
        u, s = stack.pop()
        v = _numval(u)
        if v is not None and v != 0:
            c = c * Fraction(v) if s > 0 else c / Fraction(v)
            continue
        k = u.decl().kind() if z3.is_app(u) else None
        if k == z3.Z3_OP_MUL:
            stack += [(x, s) for x in reversed(u.children())]
        elif k == z3.Z3_OP_DIV:
            stack += [(u.arg(1), -s), (u.arg(0), s)]
        elif k == z3.Z3_OP_UMINUS:
            c = -c
            stack.append((u.arg(0), s))
        else:
            (num if s > 0 else den).append(u)
    return c, num, den


def _contains(t, ids):
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        i = u.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        stack.extend(u.children())
    return False


def build(c, num, den):
    r = None
    for f in num:
        r = f if r is None else r * f
    if c != 1 or r is None:
        cv = z3.RealVal(str(c))
        r = cv if r is None else cv * r
    if den:
        d = den[0]
        for f in den[1:]:
            d = d * f
        r = r / d
    return r


def _cancel(x, y):
    """x / y with common positive factors removed; None when nothing cancels"""
    cy, ny, dy = factors(y)
    cand = [f for f in ny if known_pos(f)]
    if not cand and not any(known_pos(f) for f in dy):
        return None
    ids = {f.get_id() for f in cand}
    if x.decl().kind() == z3.Z3_OP_ITE and (ids and _contains(x, ids) or (not cand)):
        a, b = x.arg(1), x.arg(2)
        return _t(ite(S(x.arg(0)), div(S(a), S(y)), div(S(b), S(y))))
    if x.decl().kind() == z3.Z3_OP_ADD and ids and all(_contains(q, ids) for q in x.children()):
        r = [_t(toreal(div(S(q), S(y)))) for q in x.children()]
        return z3.simplify(z3.Sum(r))
    cx, nx, dx = factors(x)
    num, den = nx + dy, dx + ny
    hit = bool(dy)
    out = []
    for f in num:
        for g in den:
            if f.eq(g) and known_pos(f):
                den.remove(g)
                hit = True
                break
        else:
            out.append(f)
    # an ITE numerator factor may contain the denominator
    if not hit:
        return None
    return build(cx / cy, out, den)


def log(x, when=()):
    import math

    x = _clean(x)
    if is_num(x):
        if x > 0:
            return math.log(x)
        if x == 0:
            return -INF
        raise Unsupported("log of negative")
    if has_inf(x):
        raise Unsupported("log inf")
    t = z3.simplify(_real(_arith(x)))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return ite(S(t.arg(0)), log(wrapr(t.arg(1)), (*when, t.arg(0))), log(wrapr(t.arg(2)), (*when, z3.Not(t.arg(0)))))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and z3.is_app(t.arg(0)) and t.arg(0).decl().kind() == z3.Z3_OP_ITE:
        q = t.arg(0)
        return ite(S(q.arg(0)), log(wrapr(q.arg(1) / t.arg(1)), (*when, q.arg(0))), log(wrapr(q.arg(2) / t.arg(1)), (*when, z3.Not(q.arg(0)))))
    from . import engine

    if known_pos(t):
        # logarithm of a product of positive factors
        cf, num, den = factors(t)
        r = math.log(cf) if cf != 1 else 0.0
        for f in num:
            r = add(r, _log1(f))
        for f in den:
            r = sub(r, _log1(f))
        return r
    f = S(rfun("log", S(t)))
    if engine.have() and engine.cur().entails(z3.Implies(z3.And(*when), t > 0) if when else t > 0):
        return f
    return mkext(f, t == 0, None)


def _log1(f):
    if f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.decl().name() == "fn_exp":
        return S(f.arg(0))
    return S(rfun("log", S(f)))


def wrapr(t):
    v = _numval(t)
    if v is not None:
        return float(v) if Fraction(repr(float(v))) == v else S(t)
    return S(t)


def sqrt(x):
    import math

    x = _clean(x)
    if is_num(x):
        return math.sqrt(x)
    return S(rfun("sqrt", x))


def power(a, b):
    a, b, c = _both(a, b)
    if c:
        return a ** b
    if is_num(b) and float(b).is_integer() and 0 <= b <= 4:
        b = int(b)
        if b == 0:
            return 1.0 if a.is_real else 1
        r = a
        for _ in range(b - 1):
            r = mul(r, a)
        return r
    if is_num(b) and b == 0.5:
        return sqrt(a)
    return S(uf("fn_pow", R, R, R)(_real(_arith(a)), _real(_arith(b))))


def tobool(x):
    x = _clean(x)
    if is_num(x):
        return bool(x)
    if x.is_bool:
        return x
    if has_inf(x):
        raise Unsupported("bool(inf)")
    m = _mask01(x.t)
    if m is not None:
        return S(m)
    return S(x.t != 0)


def toreal(x):
    x = _clean(x)
    if is_num(x):
        return float(x)
    if has_inf(x):
        return x
    t = x.t
    if t.sort().kind() == z3.Z3_BOOL_SORT:
        return S(z3.If(t, z3.RealVal(1), z3.RealVal(0)))
    m = _mask01(t)
    if m is not None and t.sort().kind() == z3.Z3_INT_SORT:
        return S(z3.If(m, z3.RealVal(1), z3.RealVal(0)))
    return S(_real(t))


def toint(x):
    x = _clean(x)
    if is_num(x):
        return int(x)
    t = x.t
    if t.sort().kind() == z3.Z3_BOOL_SORT:
        return S(z3.If(t, z3.IntVal(1), z3.IntVal(0)))
    if t.sort().kind() == z3.Z3_INT_SORT:
        return x
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return S(t.arg(0))
    m = _mask01(t)
    if m is not None:
        return S(z3.If(m, z3.IntVal(1), z3.IntVal(0)))
    return S(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def floor(x):
    import math

    x = _clean(x)
    if is_num(x):
        return math.floor(x)
    if x.is_real:
        return S(z3.ToInt(x.t))
    return toint(x)


def ceil(x):
    return neg(floor(neg(x)))


def lnot(a):
    a = tobool(a)
    if is_num(a):
        return not a
    if z3.is_not(a.t):
        return S(a.t.arg(0))
    return S(z3.Not(a.t))


def land(a, b):
    a, b = _clean(a), _clean(b)
    if is_num(a) and is_num(b):
        return a & b
    for p, q in ((a, b), (b, a)):
        if isinstance(p, bool):
            return tobool(q) if p else False
    if (isinstance(a, S) and not a.is_bool) or (isinstance(b, S) and not b.is_bool):
        return toint(land(tobool(a), tobool(b)))  # 0/1 masks only
    return S(z3.And(_t(tobool(a)), _t(tobool(b))))


def lor(a, b):
    a, b = _clean(a), _clean(b)
    if is_num(a) and is_num(b):
        return a | b
    for p, q in ((a, b), (b, a)):
        if isinstance(p, bool):
            return True if p else tobool(q)
    return S(z3.Or(_t(tobool(a)), _t(tobool(b))))


def implies(a, b):
    return lor(lnot(a), b)


def lt(a, b):
    a, b, c = _both(a, b)
    if c:
        return a < b
    if has_inf(a) or has_inf(b):
        na, nb, pa, pb = ninf_of(a), ninf_of(b), pinf_of(a), pinf_of(b)
        f = _FALSE
        na, nb, pa, pb = [f if q is None else q for q in (na, nb, pa, pb)]
        x, y = _harm(fin(a), fin(b))
        return wrap(
            z3.simplify(
                z3.Or(
                    z3.And(na, z3.Not(nb)),
                    z3.And(pb, z3.Not(pa)),
                    z3.And(z3.Not(z3.Or(na, nb, pa, pb)), x < y),
                )
            )
        )
    x, y = _harm(a, b)
    return S(x < y)


def le(a, b):
    a, b, c = _both(a, b)
    if c:
        return a <= b
    if has_inf(a) or has_inf(b):
        return lnot(lt(b, a))
    x, y = _harm(a, b)
    return S(x <= y)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b
    try:
        a, b, c = _both(a, b)
    except Unsupported:
        return False
    if c:
        return a == b
    if has_inf(a) or has_inf(b):
        f = _FALSE
        na, nb, pa, pb = [
            f if q is None else q
            for q in (ninf_of(a), ninf_of(b), pinf_of(a), pinf_of(b))
        ]
        x, y = _harm(fin(a), fin(b))
        return wrap(
            z3.simplify(
                z3.And(na == nb, pa == pb, z3.Or(na, pa, x == y))
            )
        )
    if isinstance(a, S) and isinstance(b, S) and a.t.sort() == b.t.sort():
        if a.t.eq(b.t):
            return True
        return S(a.t == b.t)
    x, y = a, b
    if isinstance(a, S) and a.is_bool and isinstance(b, bool):
        return a if b else lnot(a)
    if isinstance(b, S) and b.is_bool and isinstance(a, bool):
        return b if a else lnot(b)
    # If(c,1,0) == const
    for p, q in ((a, b), (b, a)):
        if isinstance(p, S) and is_num(q):
            m = p.t if p.is_bool else _mask01(p.t)
            if m is not None:
                if q == 1:
                    return S(m)
                if q == 0:
                    return lnot(S(m))
                return False
    x, y = _harm(a, b)
    return S(x == y)


def ite(c, a, b):
    c = tobool(c)
    if is_num(c):
        return a if c else b
    a, b = _clean(a), _clean(b)
    if has_inf(a) or has_inf(b):
        f = _FALSE
        na, nb, pa, pb = [
            f if q is None else q
            for q in (ninf_of(a), ninf_of(b), pinf_of(a), pinf_of(b))
        ]
        n = z3.simplify(z3.If(c.t, na, nb))
        p = z3.simplify(z3.If(c.t, pa, pb))
        # the finite part on an infinite branch is irrelevant
        fa, fb = fin(a), fin(b)
        if z3.is_true(z3.simplify(z3.Or(na, pa))):
            v = fb
        elif z3.is_true(z3.simplify(z3.Or(nb, pb))):
            v = fa
        else:
            v = ite(c, fa, fb)
        return mkext(toreal(v), n, p)
    if isinstance(a, S) and isinstance(b, S) and a.t.eq(b.t):
        return a
    if is_num(a) and is_num(b) and type(a) is type(b) and a == b:
        return a
    x, y = _t(a), _t(b)
    if x.sort() != y.sort():
        if not (x.sort().kind() == z3.Z3_BOOL_SORT and y.sort().kind() == z3.Z3_BOOL_SORT):
            x, y = _harm(a, b)
    return S(z3.If(c.t, x, y))


def smax(a, b):
    return _bounded(le(b, a), a, b, ninf_of, lambda f, x: mkext(f, None, pinf_of(x)))


def smin(a, b):
    return _bounded(le(a, b), a, b, pinf_of, lambda f, x: mkext(f, ninf_of(x), None))


def _bounded(c, a, b, lost, mk):
    """max / min of a finite and a possibly infinite value: that infinity cannot be the result"""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, S) and lost(x) is not None and not has_inf(y):
            return mk(ite(c, fin(a), fin(b)), x)
    return ite(c, a, b)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    r = True
    for x in xs:
        r = land(r, tobool(x))
    return r


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    r = False
    for x in xs:
        r = lor(r, tobool(x))
    return r
