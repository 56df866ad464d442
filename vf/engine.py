"""Path exploration, fold terms and the obligation prover."""
import itertools
import time

from . import smt
from .smt import S, PathEnd, Unsupported, _t, z3, I, R, B

_CUR = []


def cur():
    if not _CUR:
        raise Unsupported("symbolic value used outside a symbolic run")
    return _CUR[-1]


def have():
    return bool(_CUR)


# ------------------------------------------------------------------ AST helpers
_PHC = {}


class _NoSel(Exception):
    pass


def _contains_term(t, c):
    seen, stack = set(), [t]
    i = c.get_id()
    while stack:
        u = stack.pop()
        if u.get_id() == i:
            return True
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        stack.extend(u.children())
    return False


def _selapps(*ts):
    out, seen, stack = [], set(), list(ts)
    while stack:
        u = stack.pop(0)
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name().startswith("sel") and u.num_args() == 1:
                if free_ph(u):
                    out.append(u)
                continue
            stack.extend(u.children())
    return out


def _declnames(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            stack.extend(u.children())
    return out


def free_ph(t):
    """ids/terms of placeholder variables in t (ordered by first occurrence)"""
    k = t.get_id()
    c = _PHC.get(k)
    if c is not None and c[0].eq(t):
        return c[1]
    out, seen = [], set()

    def go(u):
        if u.get_id() in seen:
            return
        seen.add(u.get_id())
        if z3.is_const(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name().startswith("ph!"):
                out.append(u)
            return
        for a in u.children():
            go(a)

    go(t)
    _PHC[k] = (t, out)
    return out


def has_const(t, c):
    return any(x.eq(c) for x in free_ph(t))


BV = z3.Int("bv!")


class FoldDecl:
    __slots__ = ("kind", "decl", "params", "n", "body", "cond", "name", "nf", "pos", "nn")

    def at(self, args, k):
        """(n, cond, body) with params:=args and bound:=k"""
        sub = [(p, a) for p, a in zip(self.params, args)]
        s2 = sub + [(BV, k)]
        return (
            z3.substitute(self.n, *sub) if sub else self.n,
            z3.substitute(self.cond, *s2),
            z3.substitute(self.body, *s2),
        )

    def nonneg(self):
        """syntactically a guarded sum of positive terms"""
        if self.nn is None:
            b = self.body
            self.nn = b.decl().kind() == z3.Z3_OP_ITE and all(
                smt._numval(x) == 0 or smt.known_pos(x) for x in (b.arg(1), b.arg(2))
            )
        return self.nn

    def nval(self, args):
        sub = [(p, a) for p, a in zip(self.params, args)]
        return z3.substitute(self.n, *sub) if sub else self.n


def _mkmul(fs, sort):
    if not fs:
        return z3.RealVal(1) if sort == R else z3.IntVal(1)
    if len(fs) == 1:
        return fs[0]
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


class Engine:
    def __init__(self, timeout_ms=8000, verbose=False):
        self.timeout_ms = timeout_ms
        self.verbose = verbose
        self.deadline = None
        self.prefix = []
        self.decisions = []
        self.worklist = []
        self.solver_time = 0.0
        self.queries = 0
        self.stats = {"z3": 0, "z3-rewriter": 0, "cvc5": 0}
        self.reset()

    # -- per-path state
    def reset(self):
        self.pc = []
        self.facts = []  # ground facts
        self.qs = []  # quantified assumptions
        self.folds = {}
        self.foldkeys = {}
        self._b3 = {}
        self.fresh_n = 0
        self.depth = 0
        self.decisions = []
        self.inputs = []  # replay description
        self.decl_dims = {}
        self._ent = {}
        self._feas = None
        self.keep = []
        self.rowpath = None
        self.posmemo = {}
        self.wd = []
        self.axioms_on = set()
        self.pinned = []

    # -- naming
    def fresh(self, base, sort=I):
        self.fresh_n += 1
        return z3.Const(f"{base}!{self.fresh_n}", sort)

    # -- assumptions
    def assume(self, f):
        f = smt.tobool(f) if not isinstance(f, z3.ExprRef) else S(f)
        if smt.is_num(f):
            if not f:
                raise PathEnd("assume false")
            return
        self.facts.append(f.t)
        self._ent = {}

    def assume_forall(self, dims, f, total=False):
        """for all 0<=i<dims: f(*i); total: for all integers (the tensor's elements are a function of
        all integers, which may as well keep constant bounds outside the tensor)"""
        vs = [z3.Int(f"ph!q{len(self.qs)}_{i}") for i in range(len(dims))]
        body = f(*[S(v) for v in vs])
        body = smt.tobool(body)
        if smt.is_num(body):
            if not body:
                raise PathEnd("assume false")
            return
        rng = [z3.And(v >= 0, v < _t(n)) for v, n in zip(vs, dims)]
        b = body.t if total else z3.Implies(z3.And(*rng), body.t)
        trig = self._triggers(body.t, vs)
        self.qs.append((vs, b, trig, [self._positions([b], v) for v in vs]))
        self._ent = {}

    def _triggers(self, body, vs):
        """patterns: uninterpreted applications (nested uninterpreted structure,
        other ground arguments) that bind every variable"""
        res = []
        seen = set()
        ids = {v.get_id() for v in vs}

        def vars_of(u):
            return {x.get_id() for x in free_ph(u)} & ids

        def okpat(u):
            if u.get_id() in ids or not vars_of(u):
                return True
            return (
                z3.is_app(u)
                and u.decl().kind() == z3.Z3_OP_UNINTERPRETED
                and u.decl().name() not in self.folds
                and all(okpat(x) for x in u.children())
            )

        def go(u):
            if u.get_id() in seen:
                return
            seen.add(u.get_id())
            if z3.is_app(u) and u.num_args() > 0:
                if (
                    u.decl().kind() == z3.Z3_OP_UNINTERPRETED
                    and vars_of(u) == ids
                    and okpat(u)
                ):
                    res.append(u)
                for c in u.children():
                    go(c)

        go(body)
        return res

    def _positions(self, terms, v):
        """(function, argument position) pairs at which v occurs directly"""
        out, seen = set(), set()
        stack = list(terms)
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_app(u):
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args():
                    for i, x in enumerate(u.children()):
                        if x.eq(v):
                            out.add((u.decl().name(), i))
                stack.extend(u.children())
        return out

    def _at_positions(self, pos, apps):
        d = {}
        for nm, i in pos:
            for u in apps.get(nm, {}).values():
                if i < u.num_args():
                    x = u.arg(i)
                    d[x.get_id()] = x
        return list(d.values())

    @staticmethod
    def _match(pat, t, ids, sub):
        if pat.get_id() in ids:
            k = pat.get_id()
            if k in sub:
                return sub[k].eq(t)
            sub[k] = t
            return True
        if pat.eq(t):
            return True
        if z3.is_app(pat) and z3.is_app(t) and pat.num_args() > 0 and pat.decl().eq(t.decl()):
            return all(Engine._match(a, b, ids, sub) for a, b in zip(pat.children(), t.children()))
        return False

    # ------------------------------------------------------------------ folds
    def fold(self, kind, n, f, cond=None):
        """kind in Sum, Prod, ArgMax, Any. f(k)->scalar (cond(k)->bool)"""
        n = smt._clean(n)
        if isinstance(n, S):
            v = z3.simplify(n.t)
            if z3.is_int_value(v):
                n = v.as_long()
        if smt.is_num(n):
            return self._unroll(kind, n, f, cond)
        ph = z3.Int(f"ph!{self.depth}")
        self.depth += 1
        try:
            body = f(S(ph))
            c = cond(S(ph)) if cond is not None else True
        finally:
            self.depth -= 1
        nt = n.t
        if kind == "Sum":
            if smt.has_inf(body):
                raise Unsupported("sum of infinities")
            if not isinstance(c, bool) or c is not True:
                body = smt.ite(c, body, 0.0)
            bt = smt._arith(body)
            r = self._selsum(nt, bt, ph)
            if r is not None:
                return r
            return smt.wrap(self._sum(nt, bt, ph))
        if kind == "Any":
            b = smt.tobool(body)
            if smt.is_num(b):
                return S(nt > 0) if b else False
            return S(self._leaf("Any", nt, ph, z3.simplify(b.t), z3.BoolVal(True), B))
        if kind == "Prod":
            bt = smt._arith(body)
            if not any(x.eq(ph) for x in free_ph(bt)) and z3.is_rational_value(bt) and bt.as_fraction() == 1:
                return 1.0
            return S(self._leaf("Prod", nt, ph, z3.simplify(bt), z3.BoolVal(True), bt.sort()))
        if kind == "ArgMax":
            if smt.pinf_of(body) is not None:
                raise Unsupported("argmax +inf")
            ni = smt.ninf_of(body)
            if ni is not None:
                c = smt.land(c, S(z3.simplify(z3.Not(ni))))
                body = smt.fin(body)
            ct = _t(smt.tobool(c))
            bt = z3.simplify(smt._arith(body))
            leaf = S(self._leaf("ArgMax", nt, ph, bt, z3.simplify(ct), I))
            t = self._onehot(bt, ph) if z3.is_true(z3.simplify(ct)) else None
            if t is not None:
                return smt.ite(smt.land(smt.le(0, S(t)), smt.lt(S(t), n)), S(t), leaf)
            return leaf
        raise Unsupported(kind)

    def _onehot(self, bt, ph):
        """t when bt is If(ph == t, c1, c2) with numerals c1 > c2: its largest element is at t"""
        if bt.decl().kind() != z3.Z3_OP_ITE or not z3.is_eq(bt.arg(0)):
            return None
        v1, v2 = smt._numval(bt.arg(1)), smt._numval(bt.arg(2))
        if v1 is None or v2 is None or not v1 > v2:
            return None
        a, b = bt.arg(0).children()
        for x, y in ((a, b), (b, a)):
            if x.eq(ph) and not any(q.eq(ph) for q in free_ph(y)):
                return y
        return None

    def _selsum(self, nt, bt, ph):
        """sum over the selected positions of a mask == guarded sum over all positions
        (the enumeration is a bijection onto the true positions)"""
        if self.__dict__.get("sels_path") is not self.pc:
            return None
        for sel, cnt, body, dims, fs, mf in self.__dict__.get("sels", {}).values():
            if not isinstance(cnt, S) or not z3.simplify(cnt.t).eq(z3.simplify(nt)):
                continue
            names = {f.name() for f in fs}
            if not any(n in names for n in _declnames(bt)):
                continue

            def go(j, pre):
                if j == len(dims):
                    subs = [(f(ph), _t(p)) for f, p in zip(fs, pre)]
                    t = z3.substitute(z3.simplify(bt), *subs)
                    if has_const(t, ph):
                        raise _NoSel()
                    return smt.ite(mf(*pre), S(t), 0.0 if bt.sort() == R else 0)
                return self.fold("Sum", dims[j], lambda q: go(j + 1, pre + [q]))

            self.depth += 1
            try:
                return go(0, [])
            except _NoSel:
                continue
            finally:
                self.depth -= 1
        return None

    def _unroll(self, kind, n, f, cond):
        n = int(n)
        if n > 4096:
            raise Unsupported("unroll")
        if kind == "Sum":
            r = 0
            for k in range(n):
                v = f(k)
                if cond is not None:
                    v = smt.ite(cond(k), v, 0.0)
                r = smt.add(r, v)
            return r
        if kind == "Prod":
            r = 1
            for k in range(n):
                r = smt.mul(r, f(k))
            return r
        if kind == "Any":
            return smt.Or([f(k) for k in range(n)]) if n else False
        if kind == "ArgMax":
            if n == 0:
                raise Unsupported("argmax of empty")
            best, bv = 0, f(0)
            bc = cond(0) if cond is not None else True
            for k in range(1, n):
                v = f(k)
                c = cond(k) if cond is not None else True
                better = smt.lt(bv, v)
                if c is not True or bc is not True:
                    better = smt.And(c, smt.Or(smt.lnot(bc), better))
                    bc = smt.Or(bc, c)
                best = smt.ite(better, k, best)
                bv = smt.ite(better, v, bv)
            return best
        raise Unsupported(kind)

    # -- folds under a guard -------------------------------------------------
    def _ctx(self, t):
        """inside If(c, x, y): folds of x are specialised to c, folds of y to not c"""
        if not any(n in self.folds for n in _declnames(t)):
            return t
        memo = {}

        def go(u):
            i = u.get_id()
            if i in memo:
                return memo[i]
            r = u
            if z3.is_app(u) and u.num_args():
                ch = [go(x) for x in u.children()]
                if u.decl().kind() == z3.Z3_OP_ITE:
                    for c in self._conj(ch[0]):
                        ch[1] = self._spec(ch[1], c, True)
                    if not z3.is_and(ch[0]):
                        ch[2] = self._spec(ch[2], ch[0], False)
                if any(not a.eq(b) for a, b in zip(ch, u.children())):
                    r = u.decl()(*ch)
            memo[i] = r
            return r

        r = go(t)
        return t if r is t else z3.simplify(r)

    def _spec(self, x, c, val):
        if z3.is_not(c):
            c, val = c.arg(0), not val
        if z3.is_true(c) or z3.is_false(c):
            return x
        subs = []
        for u in self._foldapps(x):
            fd = self.folds[u.decl().name()]
            if fd.kind not in ("Sum", "ArgMax", "Any"):
                continue
            memo = self.__dict__.setdefault("specmemo", {})
            k = (u.get_id(), c.get_id(), val)
            if k not in memo:
                memo[k] = (self._spec1(fd, u, c, val), u, c)
            if memo[k][0] is not None:
                subs.append((u, memo[k][0]))
        if subs:
            x = z3.substitute(x, *subs)
        return x

    def _spec1(self, fd, u, c, val):
        self.nspec = getattr(self, "nspec", 0) + 1
        ph = z3.Int(f"ph!s{self.nspec}")
        n, cw, bw = fd.at(u.children(), ph)
        if not (_contains_term(bw, c) or _contains_term(cw, c)):
            return None
        v = z3.BoolVal(val)
        bw = z3.simplify(z3.substitute(bw, (c, v)))
        cw = z3.simplify(z3.substitute(cw, (c, v)))
        if fd.kind == "Sum":
            return self._sum(n, bw, ph)
        return self._leaf(fd.kind, n, ph, bw, cw, u.sort())

    def _leaf(self, kind, n, ph, body, cond, sort):
        body = self._ctx(body)
        params = []
        if self.__dict__.get("sels"):
            # outer positions reached through a mask selection are parameters themselves
            for u in _selapps(body, cond, n):
                if not has_const(u, ph):
                    params.append(u)
            if params:
                ab = [(u, z3.Int(f"pq!{i}")) for i, u in enumerate(params)]
                body, cond, n = (z3.substitute(t, *ab) for t in (body, cond, n))
        npar = [z3.Int(f"pq!{i}") for i in range(len(params))]
        for t in (body, cond, n):
            for p in free_ph(t):
                if not p.eq(ph) and not any(p.eq(q) for q in params):
                    params.append(p)
                    npar.append(p)
        sub = [(ph, BV)]
        norm = [(p, z3.Int(f"pp!{i}")) for i, p in enumerate(npar)]
        bb = z3.substitute(body, *(sub + norm))
        cc = z3.substitute(cond, *(sub + norm))
        nn = z3.substitute(n, *norm) if norm else n
        key = (kind, bb.get_id(), cc.get_id(), nn.get_id())
        fd = self.foldkeys.get(key)
        if fd is None:
            fd = FoldDecl()
            fd.kind = kind
            fd.name = f"fold_{kind}!{len(self.foldkeys)}"
            fd.params = [q for _, q in norm]
            fd.body, fd.cond, fd.n = bb, cc, nn
            fd.nf = fd.nn = None
            fd.pos = self._positions([bb, cc], BV)
            fd.decl = z3.Function(fd.name, *([I] * len(params)), sort) if params else z3.Const(fd.name, sort)
            self.foldkeys[key] = fd
            self.folds[fd.name] = fd
            self.keep.append((bb, cc, nn))
        if params:
            return fd.decl(*params)
        return fd.decl

    def _sum(self, n, body, ph):
        """Sum leaf; only ph-free factors are pulled out. The decomposed form
        (linearity over + and case splits) is available as a lemma, see nform."""
        body = z3.simplify(body)
        sort = body.sort()
        coef = []
        while True:
            if not has_const(body, ph):
                coef.append(body)
                body = None
                break
            k = body.decl().kind()
            if sort == R and k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
                c0, nu, de = smt.factors(body)
                fr = ([a for a in nu if not has_const(a, ph)], [a for a in de if not has_const(a, ph)])
                if not fr[0] and not fr[1] and c0 == 1:
                    break
                coef.append(smt.build(c0, *fr))
                body = smt.build(1, [a for a in nu if has_const(a, ph)], [a for a in de if has_const(a, ph)])
                if body.decl().kind() == z3.Z3_OP_MUL or body.decl().kind() == z3.Z3_OP_DIV:
                    break
            elif k == z3.Z3_OP_MUL:
                c = [a for a in body.children() if not has_const(a, ph)]
                if not c:
                    break
                coef += c
                body = _mkmul([a for a in body.children() if has_const(a, ph)], sort)
            elif k == z3.Z3_OP_UMINUS:
                coef.append(z3.IntVal(-1))
                body = body.arg(0)
            elif k == z3.Z3_OP_TO_REAL:
                r = self._sum(n, body.arg(0), ph)
                body = None
                coef.append(z3.ToReal(r))
                return _mkmul(coef, sort) if len(coef) > 1 else coef[0]
            elif k == z3.Z3_OP_ITE and smt._numval(body.arg(2)) == 0:
                e = self._delta_sum(n, self._conj(body.arg(0)), body.arg(1), ph)
                if e is None:
                    # constant factors of a guarded term
                    if sort == R and has_const(body.arg(1), ph):
                        c0, nu, de = smt.factors(body.arg(1))
                        fr = ([a for a in nu if not has_const(a, ph)], [a for a in de if not has_const(a, ph)])
                        if fr[0] or fr[1] or c0 != 1:
                            coef.append(smt.build(c0, *fr))
                            rest = smt.build(1, [a for a in nu if has_const(a, ph)], [a for a in de if has_const(a, ph)])
                            body = z3.If(body.arg(0), rest, body.arg(2))
                    break
                return _mkmul(coef + [e], sort)
            elif k == z3.Z3_OP_ITE and smt._numval(body.arg(1)) == 0:
                e = self._delta_sum(n, self._conj(z3.simplify(z3.Not(body.arg(0)))), body.arg(2), ph)
                if e is None:
                    break
                return _mkmul(coef + [e], sort)
            else:
                break
        if body is None:
            if any(smt._numval(c) == 0 for c in coef):
                return z3.RealVal(0) if sort == R else z3.IntVal(0)
            s = z3.ToReal(n) if sort == R else n
            if not self.known_nonneg(n):
                s = z3.If(n > 0, s, z3.RealVal(0) if sort == R else z3.IntVal(0))
        else:
            # 0/1-valued bodies are counted over the integers
            m = smt._mask01(body) if sort == R else None
            if m is not None:
                s = z3.ToReal(self._leaf("Sum", n, ph, z3.If(m, z3.IntVal(1), z3.IntVal(0)), z3.BoolVal(True), I))
            else:
                s = self._leaf("Sum", n, ph, body, z3.BoolVal(True), sort)
        coef = [c for c in coef if smt._numval(c) != 1]
        return _mkmul(coef + [s], sort)

    def _delta(self, guards, ph):
        """e when the guards force ph == e (e free of ph)"""
        for g in guards:
            if z3.is_eq(g):
                a, b = g.arg(0), g.arg(1)
                if a.eq(ph) and not has_const(b, ph):
                    return b
                if b.eq(ph) and not has_const(a, ph):
                    return a
                if a.sort() == I and has_const(g, ph):
                    # ph + c == e
                    d = z3.simplify(a - b)
                    c0 = z3.simplify(z3.substitute(d, (ph, z3.IntVal(0))))
                    c1 = z3.simplify(z3.substitute(d, (ph, z3.IntVal(1))) - c0)
                    v = smt._numval(c1)
                    if v in (1, -1) and smt._numval(z3.simplify(d - c0 - c1 * ph, som=True)) == 0:
                        return z3.simplify(-c0 if v == 1 else c0)
        return None

    def _delta_sum(self, n, guards, val, ph):
        e = self._delta(guards, ph)
        if e is None:
            return None
        zero = z3.RealVal(0) if val.sort() == R else z3.IntVal(0)
        c = z3.And(e >= 0, e < n, *guards)
        return z3.simplify(z3.If(z3.substitute(c, (ph, e)), z3.substitute(val, (ph, e)), zero))

    def nform(self, fd, args):
        """decomposed form of a Sum leaf application, or None"""
        if fd.nf is None:
            ph = z3.Int("ph!nf")
            pp = [z3.Int(f"ph!p{i}") for i in range(len(fd.params))]
            sub = list(zip(fd.params, pp))
            body = z3.substitute(fd.body, (BV, ph), *sub)
            r = self._sum_nf(z3.substitute(fd.n, *sub) if sub else fd.n, body, ph)
            self_app = fd.decl(*pp) if pp else fd.decl
            fd.nf = False if z3.simplify(r).eq(self_app) else r
            self.keep.append((r,))
        if fd.nf is False:
            return None
        sub = [(z3.Int(f"ph!p{i}"), a) for i, a in enumerate(args)]
        return z3.substitute(fd.nf, *sub) if sub else fd.nf

    # sum normal form: list of (coef, guards, factors), coef free of ph
    def _sum_nf(self, n, body, ph):
        sort = body.sort()
        body = z3.simplify(body)
        try:
            terms = self._monos(body, ph, [], 0)
        except RecursionError:
            terms = [(None, [], [body])]
        acc = {}
        order = []
        for coef, guards, facs in terms:
            if guards:
                gs = sorted({g.get_id(): g for g in guards}.values(), key=lambda g: g.sexpr())
                g = gs[0] if len(gs) == 1 else z3.simplify(z3.And(*gs))
            else:
                g = None
            fs = sorted(facs, key=lambda g: g.sexpr())
            k = (g.get_id() if g is not None else 0, tuple(f.get_id() for f in fs))
            if k not in acc:
                acc[k] = [g, fs, []]
                order.append(k)
            acc[k][2].append(coef)
        res = []
        for k in order:
            g, fs, coefs = acc[k]
            cs = None
            for c in coefs:
                c = c if c is not None else (z3.RealVal(1) if sort == R else z3.IntVal(1))
                if c.sort() != sort:
                    c = z3.ToReal(c) if sort == R else c
                cs = c if cs is None else cs + c
            cs = z3.simplify(cs)
            if smt._numval(cs) == 0:
                continue
            dl = None
            if g is not None:
                dl = self._delta_sum(n, self._conj(g), _mkmul(fs, sort), ph)
            if dl is not None:
                s = dl
            elif g is None and not fs:
                s = z3.ToReal(n) if sort == R else n
                if not self.known_nonneg(n):
                    s = z3.If(n > 0, s, z3.RealVal(0) if sort == R else z3.IntVal(0))
            elif not fs:
                s = self._leaf("Sum", n, ph, z3.If(g, z3.IntVal(1), z3.IntVal(0)), z3.BoolVal(True), I)
                if sort == R:
                    s = z3.ToReal(s)
            else:
                allint = sort == I or all(
                    z3.is_app(f) and f.decl().kind() == z3.Z3_OP_TO_REAL for f in fs
                )
                if allint:
                    fs2 = [f.arg(0) if f.sort() == R else f for f in fs]
                    m = _mkmul(fs2, I)
                    if g is not None:
                        m = z3.If(g, m, z3.IntVal(0))
                    s = self._leaf("Sum", n, ph, m, z3.BoolVal(True), I)
                    if sort == R:
                        s = z3.ToReal(s)
                else:
                    m = _mkmul(fs, R)
                    if g is not None:
                        m = z3.If(g, m, z3.RealVal(0))
                    s = self._leaf("Sum", n, ph, m, z3.BoolVal(True), R)
            nv = smt._numval(cs)
            res.append(s if nv == 1 else cs * s)
        if not res:
            return z3.RealVal(0) if sort == R else z3.IntVal(0)
        r = res[0]
        for x in res[1:]:
            r = r + x
        return r

    def known_nonneg(self, n):
        if z3.is_int_value(n):
            return n.as_long() >= 0
        return self.entails(n >= 0)

    def _monos(self, t, ph, guards, d):
        if d > 40:
            return [(None, guards, [t])]
        if not has_const(t, ph):
            nv = smt._numval(t)
            if nv == 0:
                return []
            return [(t, guards, [])]
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = []
            for a in t.children():
                r += self._monos(a, ph, guards, d + 1)
            return r
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            r = self._monos(ch[0], ph, guards, d + 1)
            for a in ch[1:]:
                r += [(self._negc(c, t.sort()), g, f) for c, g, f in self._monos(a, ph, guards, d + 1)]
            return r
        if k == z3.Z3_OP_UMINUS:
            return [(self._negc(c, t.sort()), g, f) for c, g, f in self._monos(t.arg(0), ph, guards, d + 1)]
        if k == z3.Z3_OP_TO_REAL:
            r = []
            for c, g, f in self._monos(t.arg(0), ph, guards, d + 1):
                r.append(
                    (
                        None if c is None else (z3.simplify(z3.ToReal(c))),
                        g,
                        [z3.ToReal(x) if x.sort() == I else x for x in f],
                    )
                )
            return r
        if k == z3.Z3_OP_MUL:
            parts = [self._monos(a, ph, [], d + 1) for a in t.children()]
            tot = 1
            for p in parts:
                tot *= max(1, len(p))
            if tot <= 64:
                r = [(None, list(guards), [])]
                for p in parts:
                    r2 = []
                    for c, g, f in r:
                        for c2, g2, f2 in p:
                            cc = c2 if c is None else (c if c2 is None else c * c2)
                            r2.append((cc, g + g2, f + f2))
                    r = r2
                return r
            return [(None, guards, [t])]
        if k == z3.Z3_OP_DIV:
            a, b = t.arg(0), t.arg(1)
            if not has_const(b, ph):
                r = []
                for c, g, f in self._monos(a, ph, guards, d + 1):
                    c = c if c is not None else z3.RealVal(1)
                    r.append((c / b, g, f))
                return r
            return [(c, g, f + [z3.RealVal(1) / b]) for c, g, f in self._monos(a, ph, guards, d + 1)]
        if k == z3.Z3_OP_ITE:
            c, a, b = t.arg(0), t.arg(1), t.arg(2)
            return self._monos(a, ph, guards + self._conj(c), d + 1) + self._monos(
                b, ph, guards + self._conj(z3.simplify(z3.Not(c))), d + 1
            )
        return [(None, guards, [t])]

    def _conj(self, c):
        if z3.is_and(c):
            r = []
            for x in c.children():
                r += self._conj(x)
            return r
        return [c]

    def _negc(self, c, sort):
        if c is None:
            return z3.RealVal(-1) if sort == R else z3.IntVal(-1)
        return -c

    # ------------------------------------------------------------- exploration
    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.depth:
            raise Unsupported("branch on a bound variable")
        d = len(self.decisions)
        if d < len(self.prefix):
            v = self.prefix[d]
            self.decisions.append(v)
            self.pc.append(cond if v else z3.Not(cond))
            self._ent = {}
            return v
        can_t = self._feasible(cond)
        can_f = self._feasible(z3.Not(cond))
        if not can_t and not can_f:
            raise PathEnd("infeasible")
        if can_t and can_f:
            self.worklist.append(self.decisions + [False])
            v = True
        else:
            v = can_t
        self.decisions.append(v)
        self.pc.append(cond if v else z3.Not(cond))
        self._ent = {}
        if len(self.decisions) > 400:
            raise Unsupported("path too long")
        return v

    def _feasible(self, c):
        return self._check([c], rounds=2, timeout=2000) != z3.unsat

    def entails(self, t, rounds=2):
        t = _t(smt.tobool(S(t) if isinstance(t, z3.ExprRef) else t))
        # index placeholders are never negative
        ph = free_ph(t)
        if ph:
            ks = [z3.Int("any!" + str(x)) for x in ph]
            t = z3.Implies(z3.And(*[k >= 0 for k in ks]), z3.substitute(t, *zip(ph, ks)))
        k = (t.get_id(), rounds)
        if k in self._ent:
            return self._ent[k][0]
        r = self._check([z3.Not(t)], rounds=rounds, timeout=1500) == z3.unsat
        self._ent[k] = (r, t)
        return r

    def explore(self, fn, max_paths=400):
        """run fn() on every path; yields (exception or None) after each"""
        self.worklist = [[]]
        n = 0
        while self.worklist:
            self.prefix = self.worklist.pop()
            self.reset()
            n += 1
            if n > max_paths:
                raise Unsupported("too many paths")
            _CUR.append(self)
            try:
                try:
                    res = fn()
                    yield ("ok", res)
                except PathEnd:
                    yield ("end", None)
            finally:
                _CUR.pop()

    # ------------------------------------------------------------------ prover
    def _walk(self, t, apps, seen):
        stack = [t]
        while stack:
            u = stack.pop()
            i = u.get_id()
            if i in seen:
                continue
            seen[i] = u
            if z3.is_app(u):
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = u.decl().name()
                    if nm in self.folds or u.num_args() > 0:
                        if not free_ph(u):
                            apps.setdefault(nm, {})[i] = u
                elif u.decl().kind() == z3.Z3_OP_MOD and not z3.is_int_value(u.arg(1)) and not free_ph(u):
                    apps.setdefault("%", {})[i] = u
                stack.extend(u.children())

    def _fun_axioms(self, nm, u, out):
        a = u.arg(0) if u.num_args() else None
        if nm == "fn_exp":
            out.append(u > 0)
            out.append(z3.Implies(a == 0, u == 1))
            out.append(z3.Implies(a > 0, u > 1))
            out.append(z3.Implies(a < 0, u < 1))
            if z3.is_app(a) and a.decl().name() == "fn_log":
                out.append(z3.Implies(a.arg(0) > 0, u == a.arg(0)))
        elif nm == "fn_log":
            if z3.is_app(a) and a.decl().name() == "fn_exp":
                out.append(u == a.arg(0))
            out.append(z3.Implies(a > 0, smt.uf("fn_exp", R, R)(u) == a))
            out.append(z3.Implies(a == 1, u == 0))
        elif nm == "fn_sqrt":
            out.append(z3.Implies(a >= 0, z3.And(u >= 0, u * u == a)))
        elif nm == "fn_tanh":
            out.append(z3.And(u > -1, u < 1))
        elif nm == "fn_sigmoid":
            out.append(z3.And(u > 0, u < 1))
        elif nm == "fn_pow":
            x, y = u.arg(0), u.arg(1)
            out.append(z3.Implies(y == 0, u == 1))
            out.append(z3.Implies(y == 1, u == x))
            out.append(z3.Implies(x > 0, u > 0))

    def _check(self, extra, rounds=4, timeout=None, want_model=False, goal_skolem=(), decompose=False, ext=True, purify=False):
        """is facts+pc+extra (+ lemma instances) satisfiable?"""
        timeout = timeout or self.timeout_ms
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Unsupported("symbolic phase ran out of time")
        self.queries += 1
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", int(timeout))
        s.set("random_seed", 0)
        base = list(self.pc) + list(self.facts) + list(extra)
        allf = []
        for f in base:
            s.add(f)
            allf.append(f)
        seen, apps = {}, {}
        for f in base:
            self._walk(f, apps, seen)
        donef = set()  # folds
        dones = set()  # fun axioms
        doneq = set()
        donemax = set()
        donepair = set()
        pairk = {}
        res = z3.unknown
        model = None
        for rnd in range(rounds):
            new = []
            # function axioms
            for nm in ("fn_exp", "fn_log", "fn_sqrt", "fn_tanh", "fn_sigmoid", "fn_pow"):
                for i, u in list(apps.get(nm, {}).items()):
                    if i not in dones:
                        dones.add(i)
                        self._fun_axioms(nm, u, new)
            # remainder by a symbolic divisor: range, and value within one period of 0
            for i, u in list(apps.get("%", {}).items()):
                if i not in dones:
                    dones.add(i)
                    x, y = u.children()
                    ax = [u >= 0, u < y]
                    for q in (-2, -1, 0, 1, 2):
                        ax.append(z3.Implies(z3.And(q * y <= x, x < (q + 1) * y), u == x - q * y))
                    new.append(z3.Implies(y > 0, z3.And(*ax)))
            # monotonicity of exp / log (pairs, few)
            for nm in ("fn_exp", "fn_log"):
                us = list(apps.get(nm, {}).values())
                if nm in self.axioms_on or (2 <= len(us) <= 6):
                    for a, b in itertools.combinations(us, 2):
                        k = ("mono", a.get_id(), b.get_id())
                        if k in donepair:
                            continue
                        donepair.add(k)
                        if nm == "fn_exp":
                            new.append((a.arg(0) < b.arg(0)) == (a < b))
                        else:
                            new.append(
                                z3.Implies(
                                    z3.And(a.arg(0) > 0, b.arg(0) > 0),
                                    (a.arg(0) < b.arg(0)) == (a < b),
                                )
                            )
            # folds
            fapps = []
            for nm, d in apps.items():
                fd = self.folds.get(nm)
                if fd is not None:
                    for i, u in d.items():
                        fapps.append((fd, u))
            idx_terms = self._index_terms(apps, goal_skolem)
            for fd, u in fapps:
                args = u.children()
                if u.get_id() not in donef:
                    donef.add(u.get_id())
                    self._fold_axioms(fd, u, args, new)
                    if decompose and fd.kind == "Sum":
                        e = self.nform(fd, args)
                        if e is not None:
                            new.append(u == e)
                if fd.kind == "Sum" and fd.nonneg():
                    for t in (self._at_positions(fd.pos, apps) + list(goal_skolem))[:12] if fd.pos else idx_terms[:12]:
                        k = (u.get_id(), t.get_id())
                        if k not in donemax:
                            donemax.add(k)
                            n, c, b = fd.at(args, t)
                            new.append(z3.Implies(z3.And(t >= 0, t < n), u >= b))
                if fd.kind in ("ArgMax", "Any"):
                    for t in (self._at_positions(fd.pos, apps) + list(goal_skolem))[:40] if fd.pos else idx_terms:
                        k = (u.get_id(), t.get_id())
                        if k in donemax:
                            continue
                        donemax.add(k)
                        n, c, b = fd.at(args, t)
                        if fd.kind == "Any":
                            new.append(z3.Implies(z3.And(t >= 0, t < n, b), u))
                        else:
                            _, cw, bw = fd.at(args, u)
                            new.append(
                                z3.Implies(
                                    z3.And(t >= 0, t < n, c),
                                    z3.And(cw, b <= bw, z3.Implies(t < u, b < bw)),
                                )
                            )
            # extensionality for sums / products
            for kind in ("Sum", "Prod", "Any") if ext else ("Any",):
                us = [(fd, u) for fd, u in fapps if fd.kind == kind]
                for (f1, u1), (f2, u2) in itertools.combinations(us, 2):
                    if u1.sort() != u2.sort():
                        continue
                    k = ("ext", u1.get_id(), u2.get_id())
                    if k in donepair:
                        continue
                    if len(us) > 24 and f1 is not f2:
                        pass
                    donepair.add(k)
                    kk = self.fresh("ext")
                    n1, _, b1 = f1.at(u1.children(), kk)
                    n2, _, b2 = f2.at(u2.children(), kk)
                    new.append(
                        z3.Implies(
                            z3.And(n1 == n2, z3.Implies(z3.And(kk >= 0, kk < n1), b1 == b2)),
                            u1 == u2,
                        )
                    )
            # quantified assumptions
            for qi, (vs, b, trig, poss) in enumerate(self.qs):
                for inst in self._instances(vs, trig, apps, idx_terms, poss, goal_skolem):
                    k = (qi,) + tuple(x.get_id() for x in inst)
                    if k in doneq:
                        continue
                    doneq.add(k)
                    new.append(z3.substitute(b, *zip(vs, inst)))
            if rnd and not new and res == z3.sat:
                break
            for f in new:
                f = z3.simplify(f)
                if z3.is_true(f):
                    continue
                s.add(f)
                allf.append(f)
                self._walk(f, apps, seen)
            if rnd >= 1 or not new or rounds == 1:
                res = None
                if purify:
                    pf = self._purify(allf)
                    if pf is not None:
                        s2 = z3.Solver()
                        s2.set("timeout", int(min(timeout, 3000)))
                        s2.add(*pf)
                        if s2.check() == z3.unsat:
                            res = z3.unsat
                if res is None:
                    if purify and new and rnd < rounds - 1:
                        # nonlinear: do not spend the full budget before all lemmas are in
                        s.set("timeout", int(min(timeout, 1000)))
                        res = s.check()
                        s.set("timeout", int(timeout))
                    else:
                        res = s.check()
                if res == z3.unsat:
                    break
                if not new:
                    break
            if len(allf) > 6000:
                break
        if res == z3.unknown and want_model:
            res = s.check()
        if res == z3.sat and want_model:
            model = s.model()
        self.solver_time += time.time() - t0
        self.last_solver = s
        self.keep.append(seen)
        self.keep = self.keep[-4:] + [k for k in self.keep[:-4] if isinstance(k, tuple)]
        if want_model:
            return res, model
        return res

    def _index_terms(self, apps, goal_skolem):
        d = {}
        for g in goal_skolem:
            d[g.get_id()] = g
        for nm, us in apps.items():
            fd = self.folds.get(nm)
            for u in us.values():
                if fd is not None and fd.kind == "ArgMax":
                    d[u.get_id()] = u
                if fd is None and nm != "%" and not nm.startswith("fn_"):
                    for a in u.children():
                        if a.sort() == I and not free_ph(a):
                            d[a.get_id()] = a
        return list(d.values())[:60]

    def _instances(self, vs, trig, apps, idx_terms, poss, goal_skolem):
        out = []
        if len(vs) == 0:
            return [[]]
        if trig:
            ids = {v.get_id() for v in vs}
            for pat in trig:
                for u in list(apps.get(pat.decl().name(), {}).values()):
                    sub = {}
                    if self._match(pat, u, ids, sub) and len(sub) == len(ids):
                        out.append([sub[v.get_id()] for v in vs])
            out = out[:400]
        sets = []
        for ps in poss:
            if trig:
                st = list(goal_skolem) if len(vs) == 1 else []
            else:
                st = self._at_positions(ps, apps) + list(goal_skolem) if ps else idx_terms
            sets.append(st)
        if all(sets):
            lim = int(600 ** (1.0 / len(vs))) if len(vs) > 1 else 120
            out += [list(c) for c in itertools.product(*[q[:lim] for q in sets])]
        return out

    def _bounded3(self, n):
        """a symbolic number of terms that is at most 3"""
        if z3.is_int_value(n) or not (z3.is_app(n) and n.num_args() > 0):
            return False
        key = (n.get_id(), len(self.pc))
        if key not in self._b3:
            self._b3[key] = False  # while deciding
            self._b3[key] = self.entails(n <= 3)
        return self._b3[key]

    def _fold_axioms(self, fd, u, args, out):
        kk = self.fresh("w")
        n, c, b = fd.at(args, kk)
        if fd.kind == "Sum":
            zero = z3.RealVal(0) if u.sort() == R else z3.IntVal(0)
            out.append(z3.Implies(n <= 0, u == zero))
            _, _, b0 = fd.at(args, z3.IntVal(0))
            out.append(z3.Implies(n == 1, u == b0))
            if self._bounded3(n):
                b1, b2 = (fd.at(args, z3.IntVal(k))[2] for k in (1, 2))
                out.append(z3.Implies(n == 2, u == b0 + b1))
                out.append(z3.Implies(n == 3, u == b0 + b1 + b2))
            rng = z3.And(kk >= 0, kk < n)
            out.append(z3.Implies(z3.Implies(rng, b >= 0), u >= 0))
            # all terms zero
            k2 = self.fresh("w")
            _, _, b2 = fd.at(args, k2)
            out.append(z3.Implies(z3.Implies(z3.And(k2 >= 0, k2 < n), b2 == 0), u == zero))
            if "sumpos" in self.axioms_on:
                k3 = self.fresh("w")
                _, _, b3 = fd.at(args, k3)
                out.append(
                    z3.Implies(
                        z3.And(n > 0, z3.Implies(z3.And(k3 >= 0, k3 < n), b3 > 0)), u > 0
                    )
                )
        elif fd.kind == "Prod":
            one = z3.RealVal(1) if u.sort() == R else z3.IntVal(1)
            out.append(z3.Implies(n <= 0, u == one))
            _, _, b0 = fd.at(args, z3.IntVal(0))
            out.append(z3.Implies(n == 1, u == b0))
        elif fd.kind == "Any":
            out.append(z3.Implies(u, z3.And(kk >= 0, kk < n, b)))
        elif fd.kind == "ArgMax":
            n, cw, bw = fd.at(args, u)
            out.append(z3.Implies(n >= 1, z3.And(u >= 0, u < n)))

    # ---------------------------------------------------------------- proving
    scale = 1

    def prove(self, goal, skolem=(), timeout=None, rounds=9):
        """-> (status, model, backend)"""
        goal = smt.tobool(goal)
        timeout = timeout or self.timeout_ms
        if smt.is_num(goal):
            if goal:
                return "proved", None, "trivial"
            r, m = self._check([], rounds=4, timeout=timeout, want_model=True)
            if r == z3.unsat:
                return "proved", None, "z3"
            return ("refuted" if r == z3.sat else "unknown"), m, "z3"
        self._be = "z3-rewriter"
        self._swept = {}
        self._budget = time.time() + 3.0 * timeout / 1000
        r, m = self._prove(goal.t, [], list(skolem), timeout, rounds)
        if r == "proved":
            self.stats[self._be] = self.stats.get(self._be, 0) + 1
            return "proved", None, self._be
        return r, m, "z3+cvc5" if r == "unknown" else "z3"

    def _prove(self, g, hyps, skolem, timeout, rounds):
        if z3.is_true(z3.simplify(g)):
            return "proved", None
        if z3.is_and(g):
            for x in g.children():
                r, m = self._prove(x, hyps, skolem, timeout, rounds)
                if r != "proved":
                    return r, m
            return "proved", None
        if z3.is_implies(g):
            return self._prove(g.arg(1), hyps + [g.arg(0)], skolem, timeout, rounds)
        if z3.is_or(g):
            # Not(h) \/ goal: negated disjuncts become hypotheses
            neg = [x for x in g.children() if z3.is_not(x)]
            pos = [x for x in g.children() if not z3.is_not(x)]
            if neg and len(pos) == 1:
                return self._prove(pos[0], hyps + [x.arg(0) for x in neg], skolem, timeout, rounds)
        m0 = None
        if z3.is_eq(g):
            a, b = g.arg(0), g.arg(1)
            if self._poly_eq(a, b):
                return "proved", None
            sums = self._foldapps(a, b)
            if not sums:
                return self._leafq(g, hyps, skolem, timeout, rounds)
            r = self._sweep(a, b, hyps, skolem, timeout, 0)
            if r:
                return "proved", None
            # linearity of sums / case splits
            a2, b2 = self._decomp(a), self._decomp(b)
            if (a2 is not None or b2 is not None) and time.time() < self._budget:
                if self._sweep(a2 if a2 is not None else a, b2 if b2 is not None else b, hyps, skolem, timeout, 0):
                    return "proved", None
            return self._leafq(g, hyps, skolem, timeout, rounds, ext=True)
        return self._leafq(g, hyps, skolem, timeout, rounds, ext=True)

    def _leafq(self, g, hyps, skolem, timeout, rounds, ext=False):
        left = max(500, int((self._budget - time.time()) * 1000))
        timeout = min(timeout, left)
        q = hyps + [z3.Not(g)]
        r, m = self._check(q, rounds=rounds, timeout=timeout, want_model=True, goal_skolem=skolem, ext=False, purify=True)
        if r == z3.unsat:
            self._be = "z3"
            return "proved", None
        s1 = self.last_solver
        if ext:
            r2, m2 = self._check(q, rounds=rounds, timeout=timeout, want_model=True, goal_skolem=skolem, ext=True, purify=True)
            if r2 == z3.unsat:
                self._be = "z3"
                return "proved", None
            if r2 == z3.sat:
                r, m = r2, m2
            s1 = self.last_solver
        if r == z3.unknown and time.time() < self._budget:
            if self._cvc5(s1, tlimit=min(8000 * self.scale, timeout)) == "unsat":
                self._be = "cvc5"
                return "proved", None
        return ("refuted" if r == z3.sat else "unknown"), m

    def _poly_eq(self, a, b):
        if a.eq(b):
            return True
        if a.sort() == B or not z3.is_arith(a):
            return z3.is_true(z3.simplify(a == b))
        dd = z3.simplify(a - b, som=True)
        if smt._numval(dd) == 0:
            return True
        dd = z3.simplify(dd, som=True, pull_cheap_ite=True)
        return smt._numval(dd) == 0

    def _foldapps(self, *ts):
        """outermost-first list of fold applications (distinct)"""
        out, seen = [], set()
        stack = list(ts)
        while stack:
            u = stack.pop(0)
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_app(u):
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in self.folds:
                    out.append(u)
                stack.extend(u.children())
        return out

    def _decomp(self, t):
        subs = []
        for u in self._foldapps(t):
            fd = self.folds[u.decl().name()]
            if fd.kind == "Sum":
                e = self.nform(fd, u.children())
                if e is not None:
                    subs.append((u, e))
        if not subs:
            return None
        return z3.simplify(z3.substitute(t, *subs))

    def _sweep(self, a, b, hyps, skolem, timeout, depth):
        """a == b by congruence closure over provably equal folds"""
        for it in range(8):
            if time.time() > self._budget:
                return False
            if self._poly_eq(a, b):
                return True
            fa, fb = self._foldapps(a), self._foldapps(b)
            ia = {u.get_id() for u in fa}
            ib = {u.get_id() for u in fb}
            ua = [u for u in fa if u.get_id() not in ib]
            ub = [u for u in fb if u.get_id() not in ia]
            prog = False
            for u in ua:
                for v in ub:
                    if u.sort() != v.sort() or self.folds[u.decl().name()].kind != self.folds[v.decl().name()].kind:
                        continue
                    if self._samefold(u, v, hyps, skolem, timeout, depth):
                        a = z3.simplify(z3.substitute(a, (u, v)))
                        b = z3.simplify(b)
                        prog = True
                        break
                if prog:
                    break
            if not prog and len(ua) + len(ub) <= 12:
                # sums of opposite terms are opposite
                for u in ua:
                    for v in ub:
                        if u.sort() == R and v.sort() == R and self._negfold(u, v, hyps, skolem):
                            a = z3.simplify(z3.substitute(a, (u, -v)))
                            b = z3.simplify(b)
                            prog = True
                            break
                    if prog:
                        break
            if not prog:
                break
        # the remaining difference is first-order
        if a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.num_args() > 0 and a.decl().kind() in (
            z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UNINTERPRETED,
        ):
            if all(
                x.eq(y) or self._leafq(x == y, hyps, skolem, min(timeout, 2500 * self.scale), 5)[0] == "proved"
                for x, y in zip(a.children(), b.children())
            ):
                return True
        return self._split_eq(a, b, hyps, skolem, timeout if depth == 0 else min(timeout, 5000 * self.scale))

    def _boolatoms(self, *ts):
        out, seen = [], set()
        stack = list(ts)
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_app(u):
                if z3.is_bool(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if u.decl().name() not in self.folds:
                        out.append(u)
                    continue
                stack.extend(u.children())
        return out

    def _coef_eq(self, a, b, hyps, skolem, timeout):
        """both sides as polynomials over the applications that no condition
        mentions; equal when every coefficient is (coefficients may branch)"""
        if a.sort() != R:
            return False
        inside, seen = set(), set()

        def mark(u, incond):
            k = (u.get_id(), incond)
            if k in seen or not z3.is_app(u):
                return
            seen.add(k)
            d = u.decl().kind()
            if d == z3.Z3_OP_UNINTERPRETED:
                if incond:
                    inside.add(u.get_id())
                    for x in u.children():
                        mark(x, True)
                else:
                    for x in u.children():
                        mark(x, True)
                return
            if d == z3.Z3_OP_ITE:
                mark(u.arg(0), True)
                mark(u.arg(1), incond)
                mark(u.arg(2), incond)
                return
            if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                for x in u.children():
                    mark(x, incond)
                return
            if d == z3.Z3_OP_DIV:
                mark(u.arg(0), incond)
                mark(u.arg(1), True)
                return
            for x in u.children():
                mark(x, True)

        mark(a, False)
        mark(b, False)
        names = {}
        memo = {}

        def lin(u):
            k = u.get_id()
            if k not in memo:
                memo[k] = (u, lin0(u))
            return memo[k][1]

        def mul(p, q):
            r = {}
            for m1, c1 in p.items():
                for m2, c2 in q.items():
                    m = tuple(sorted(m1 + m2))
                    c = c1 if smt._numval(c2) == 1 else c2 if smt._numval(c1) == 1 else z3.simplify(c1 * c2)
                    r[m] = c if m not in r else r[m] + c
            return r

        def lin0(u):
            d = u.decl().kind()
            if d == z3.Z3_OP_UNINTERPRETED and u.get_id() not in inside and u.num_args() > 0:
                names[u.get_id()] = u
                return {(u.get_id(),): z3.RealVal(1)}
            if d == z3.Z3_OP_ADD:
                r = {}
                for x in u.children():
                    for m, c in lin(x).items():
                        r[m] = c if m not in r else r[m] + c
                return r
            if d == z3.Z3_OP_SUB and u.num_args() == 2:
                r = dict(lin(u.arg(0)))
                for m, c in lin(u.arg(1)).items():
                    r[m] = -c if m not in r else r[m] - c
                return r
            if d == z3.Z3_OP_UMINUS:
                return {m: -c for m, c in lin(u.arg(0)).items()}
            if d == z3.Z3_OP_MUL:
                r = lin(u.arg(0))
                for x in u.children()[1:]:
                    r = mul(r, lin(x))
                    if len(r) > 400:
                        raise Unsupported("poly")
                return r
            if d == z3.Z3_OP_DIV:
                return {m: c / u.arg(1) for m, c in lin(u.arg(0)).items()}
            if d == z3.Z3_OP_ITE:
                p, q = lin(u.arg(1)), lin(u.arg(2))
                z = z3.RealVal(0)
                return {m: z3.If(u.arg(0), p.get(m, z), q.get(m, z)) for m in {**p, **q}}
            return {(): u}

        try:
            pa, pb = lin(a), lin(b)
        except Unsupported:
            return False
        ms = set(pa) | set(pb)
        if ms == {()}:
            return False
        z = z3.RealVal(0)
        for m in sorted(ms):
            x, y = pa.get(m, z), pb.get(m, z)
            if x.eq(y) or self._poly_eq(x, y):
                continue
            if self._leafq(x == y, hyps, skolem, min(timeout, 6000), 5)[0] != "proved":
                return False
        return True

    def _split_eq(self, a, b, hyps, skolem, timeout):
        """case split on boolean inputs, then polynomial normal form, then the solver"""
        atoms = self._boolatoms(a, b)[:5]
        if not atoms:
            return self._coef_eq(a, b, hyps, skolem, timeout) or self._leafq(a == b, hyps, skolem, timeout, 9)[0] == "proved"
        for vals in itertools.product((True, False), repeat=len(atoms)):
            sub = [(x, z3.BoolVal(v)) for x, v in zip(atoms, vals)]
            a2 = z3.simplify(z3.substitute(a, *sub), som=True)
            b2 = z3.simplify(z3.substitute(b, *sub), som=True)
            if a2.eq(b2) or self._poly_eq(a2, b2):
                continue
            h = hyps + [x if v else z3.Not(x) for x, v in zip(atoms, vals)]
            if self._coef_eq(a2, b2, h, skolem, timeout):
                continue
            if self._leafq(a2 == b2, h, skolem, timeout, 9)[0] != "proved":
                return False
        return True

    def _purify(self, fs):
        """nonlinear monomials -> fresh constants (a sound weakening); None if linear"""
        m = {}
        hit = [False]
        memo = {}

        def go(u):
            k = u.get_id()
            if k in memo:
                return memo[k][1]
            r = go0(u)
            memo[k] = (u, r)
            return r

        def var(key, sort, keep):
            hit[0] = True
            if key not in m:
                m[key] = (z3.Const(f"nl!{len(m)}", sort), keep)
            return m[key][0]

        def go0(u):
            if not z3.is_app(u) or u.num_args() == 0:
                return u
            k = u.decl().kind()
            if k == z3.Z3_OP_MUL:
                nums = [c for c in u.children() if smt._numval(c) is not None]
                rest = [c for c in u.children() if smt._numval(c) is None]
                if len(rest) >= 2:
                    rest = sorted(rest, key=lambda c: c.get_id())
                    v = var(("m",) + tuple(c.get_id() for c in rest), u.sort(), rest)
                    return _mkmul(nums + [v], u.sort())
            if k == z3.Z3_OP_POWER or (k == z3.Z3_OP_DIV and smt._numval(u.arg(1)) is None):
                return var(("d", u.get_id()), u.sort(), u)
            ch = [go(c) for c in u.children()]
            if all(c is d or c.eq(d) for c, d in zip(ch, u.children())):
                return u
            if k == z3.Z3_OP_ADD:
                return z3.Sum(ch)
            if k == z3.Z3_OP_MUL:
                return _mkmul(ch, u.sort())
            if k == z3.Z3_OP_AND:
                return z3.And(*ch)
            if k == z3.Z3_OP_OR:
                return z3.Or(*ch)
            return u.decl()(*ch)

        out = [go(z3.simplify(f, som=True)) for f in fs]
        self.keep.append((m, memo))
        return out if hit[0] else None

    def _samefold(self, u, v, hyps, skolem, timeout, depth):
        key = (u.get_id(), v.get_id(), tuple(h.get_id() for h in hyps))
        if key in self._swept:
            return self._swept[key][0]
        t0 = time.time()
        r = self._samefold0(u, v, hyps, skolem, timeout, depth)
        if self.verbose:
            print("  " * depth, "samefold", u, v, r, round(time.time() - t0, 2))
        self._swept[key] = (r, u, v, hyps)
        return r

    def _samefold0(self, u, v, hyps, skolem, timeout, depth):
        if depth > 5:
            return False
        f1, f2 = self.folds[u.decl().name()], self.folds[v.decl().name()]
        kk = self.fresh("k")
        n1, c1, b1 = f1.at(u.children(), kk)
        n2, c2, b2 = f2.at(v.children(), kk)
        if not n1.eq(n2) and not self._sweep_eq(n1, n2, hyps, skolem, 2000, depth + 1):
            return False
        h2 = hyps + [kk >= 0, kk < n1]
        if f1.kind == "ArgMax":
            if self._leafq(u == v, hyps, skolem, min(timeout, 4000), 9)[0] == "proved":
                return True
            if c1.eq(c2) or self._leafq(c1 == c2, h2, skolem + [kk], 2000, 4)[0] == "proved":
                return self._sweep_eq(b1, b2, h2 + [c1], skolem + [kk], timeout, depth + 1)
            return False
        return self._sweep_eq(b1, b2, h2, skolem + [kk], timeout, depth + 1)

    def _negfold(self, u, v, hyps, skolem):
        f1, f2 = self.folds[u.decl().name()], self.folds[v.decl().name()]
        if f1.kind != "Sum" or f2.kind != "Sum":
            return False
        key = (u.get_id(), v.get_id(), "neg")
        if key in self._swept:
            return self._swept[key][0]
        kk = self.fresh("k")
        n1, c1, b1 = f1.at(u.children(), kk)
        n2, c2, b2 = f2.at(v.children(), kk)
        r = False
        if n1.eq(n2):
            r = self._poly_eq(b1, -b2) or self._leafq(b1 == -b2, hyps + [kk >= 0, kk < n1], skolem + [kk], 1500, 3)[0] == "proved"
        self._swept[key] = (r, u, v, hyps)
        return r

    def _sweep_eq(self, a, b, hyps, skolem, timeout, depth):
        if self._poly_eq(a, b):
            return True
        return self._sweep(a, b, hyps, skolem, timeout, depth)

    def _cvc5(self, s, tlimit=8000):
        t0 = time.time()
        try:
            import subprocess, tempfile, os

            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
                p = f.name
            try:
                o = subprocess.run(
                    ["cvc5", f"--tlimit={tlimit}", p], capture_output=True, text=True, timeout=tlimit / 1000 + 5
                )
                out = o.stdout.strip().splitlines()
                return out[0] if out else "unknown"
            finally:
                os.unlink(p)
        except Exception:
            return "unknown"
        finally:
            self.solver_time += time.time() - t0


# ------------------------------------------------------------- fold front ends
def Sum(n, f, cond=None):
    return cur().fold("Sum", n, f, cond)


def Prod(n, f):
    return cur().fold("Prod", n, f)


def Any(n, f):
    return cur().fold("Any", n, f)


def All(n, f):
    if isinstance(n, int) and n <= 16:
        return smt.And(*[f(k) for k in range(n)])
    return smt.lnot(cur().fold("Any", n, lambda k: smt.lnot(f(k))))


def ArgMax(n, f, cond=None):
    return cur().fold("ArgMax", n, f, cond)


def ArgMin(n, f, cond=None):
    return cur().fold("ArgMax", n, lambda k: smt.neg(f(k)), cond)


def at_arg(n, f, w):
    """f(w) for the fold witness w, as a -inf-aware maximum"""
    return f(w)


def Max(n, f, cond=None):
    if not isinstance(smt._clean(n), S):
        n = int(n)
        if n == 0:
            raise Unsupported("max of empty")
        r = f(0)
        if cond is not None:
            r = smt.ite(cond(0), r, -smt.INF)
        for k in range(1, n):
            v = f(k)
            if cond is not None:
                v = smt.ite(cond(k), v, -smt.INF)
            r = smt.smax(r, v)
        return r
    w = ArgMax(n, f, cond)
    v = f(w)
    if cond is not None:
        return smt.ite(cond(w), v, -smt.INF)
    return v


def Min(n, f, cond=None):
    return smt.neg(Max(n, lambda k: smt.neg(f(k)), cond))
