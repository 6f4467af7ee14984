"""Equalities of real-valued terms: array reads and case distinctions are
resolved with the integer part of the path condition (decided by z3), facts
`Select(a, i) == t` are used as rewrites, and what is left is a polynomial
identity decided by sum-of-monomials normalisation."""
import time
import z3

_io = {}


def int_only(f):
    """no real-sorted subterm"""
    k = f.get_id()
    r = _io.get(k)
    if r is not None:
        return r[1]
    if z3.is_quantifier(f):
        v = False
    elif z3.is_expr(f) and f.sort().kind() == z3.Z3_REAL_SORT:
        v = False
    elif f.sort().kind() == z3.Z3_ARRAY_SORT and f.sort().range().kind() == z3.Z3_REAL_SORT:
        v = False
    else:
        v = all(int_only(c) for c in f.children())
    _io[k] = (f, v)
    return v


_lin = {}
_mono = {}


def linear(f):
    """f with products of unknowns replaced by opaque constants (an
    abstraction: unsat of the result implies unsat of f)"""
    k = f.get_id()
    r = _lin.get(k)
    if r is not None:
        return r[1]
    if z3.is_quantifier(f) or not f.children():
        v = f
    else:
        kd = f.decl().kind()
        cs = [linear(c) for c in f.children()]
        if kd == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in cs) > 1:
            fac, num = [], 1
            def flat(x):
                nonlocal num
                if x.decl().kind() == z3.Z3_OP_MUL:
                    for y in x.children():
                        flat(y)
                elif z3.is_int_value(x):
                    num *= x.as_long()
                else:
                    fac.append(x)
            for c in cs:
                flat(c)
            key = tuple(sorted(x.get_id() for x in fac))
            if key not in _mono:
                _mono[key] = (z3.FreshInt('mono'), fac)
            v = num * _mono[key][0]
        elif kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(cs[1]):
            key = (kd,) + tuple(x.get_id() for x in cs)
            if key not in _mono:
                _mono[key] = (z3.FreshInt('mono'), cs)
            v = _mono[key][0]
        else:
            v = f.decl()(*cs)
    _lin[k] = (f, v)
    return v


def lin(f):
    return linear(z3.simplify(f, som=True))


class Split(Exception):
    def __init__(self, c):
        self.c = c


class Poly:
    def __init__(self, E, pc, timeout, qpc=()):
        self.E = E
        self.end = time.time() + timeout / 1000.
        self.s = z3.Solver()
        self.s.set('timeout', max(1, int(800 * E.tscale)))
        self.l = z3.Solver()
        self.l.set('timeout', max(1, int(800 * E.tscale)))
        self.sel = {}
        self.con = {}
        self.frame = {}
        for f in pc:
            self.fact(f)
        for f in qpc:
            self.qfact(f)

    def qfact(self, f):
        """ForAll k. guard(k) => Select(a, k) == Select(b, k)"""
        if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1):
            return
        b = f.body()
        if not z3.is_implies(b):
            return
        e = b.arg(1)
        if not (z3.is_eq(e) and all(z3.is_select(x) and z3.is_const(x.arg(0)) and z3.is_var(x.arg(1)) for x in e.children())):
            return
        x, y = e.arg(0).arg(0), e.arg(1).arg(0)
        self.frame.setdefault(x.get_id(), []).append((b.arg(0), y, x))

    def fact(self, f):
        if z3.is_and(f):
            for c in f.children():
                self.fact(c)
        elif int_only(f):
            self.s.add(f)
            self.l.add(lin(f))
        elif z3.is_eq(f) and z3.is_real(f.arg(0)):
            a, b = f.arg(0), f.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_select(x) and z3.is_const(x.arg(0)):
                    self.sel.setdefault(x.arg(0).get_id(), []).append((x.arg(1), y, x))
                    break
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in self.con:
                    self.con[x.get_id()] = (x, y)
                    break

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not int_only(c):
            return None
        k = c.get_id()
        if k in self.dc:
            return self.dc[k][1]
        if time.time() > self.end:
            raise TimeoutError
        r = None
        for s, ab in ((self.l, lin), (self.s, lambda x: x)):
            for x, v in ((z3.Not(c), True), (c, False)):
                s.push()
                s.add(ab(x))
                u = s.check() == z3.unsat
                s.pop()
                if u:
                    self.dc[k] = (c, v)
                    return v
        self.dc[k] = (c, r)
        return r

    def must(self, c):
        r = self.decide(c)
        if r is None:
            if not int_only(c):
                raise NotImplementedError
            raise Split(c)
        return r

    def norm(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._norm(t)
        self.memo[k] = (t, r)
        return r

    def _norm(self, t):
        if not z3.is_real(t):
            return t
        if z3.is_rational_value(t):
            return t
        kd = t.decl().kind()
        if kd == z3.Z3_OP_ITE:
            return self.norm(t.arg(1) if self.must(t.arg(0)) else t.arg(2))
        if kd == z3.Z3_OP_SELECT:
            return self.read(t.arg(0), t.arg(1))
        if kd in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            return t.decl()(*[self.norm(c) for c in t.children()])
        if z3.is_const(t) and t.get_id() in self.con and t.get_id() not in self.busy:
            self.busy.add(t.get_id())
            r = self.norm(self.con[t.get_id()][1])
            self.busy.discard(t.get_id())
            return r
        return t

    def read(self, a, i):
        while True:
            if not z3.is_app(a):
                if z3.is_quantifier(a) and a.is_lambda():
                    return self.norm(z3.simplify(z3.Select(a, i)))
                break
            kd = a.decl().kind()
            if kd == z3.Z3_OP_STORE:
                if self.must(a.arg(1) == i):
                    return self.norm(a.arg(2))
                a = a.arg(0)
            elif kd == z3.Z3_OP_ITE:
                a = a.arg(1) if self.must(a.arg(0)) else a.arg(2)
            elif kd == z3.Z3_OP_SELECT and a.arg(0).decl().kind() == z3.Z3_OP_STORE:
                # nested arrays
                b = a.arg(0)
                if self.must(b.arg(1) == a.arg(1)):
                    a = b.arg(2)
                else:
                    a = z3.Select(b.arg(0), a.arg(1))
            else:
                break
        for j, rhs, x in self.sel.get(a.get_id(), ()):
            if x.get_id() not in self.busy and self.decide(i == j):
                self.busy.add(x.get_id())
                r = self.norm(rhs)
                self.busy.discard(x.get_id())
                return r
        for guard, b, x in self.frame.get(a.get_id(), ()):
            if self.decide(z3.substitute_vars(guard, i)):
                return self.read(b, i)
        for j, v in self.canon.setdefault(a.get_id(), []):
            if self.decide(i == j):
                return v
        v = z3.Select(a, i)
        self.canon[a.get_id()].append((i, v))
        return v

    def zero(self, d, depth=0):
        self.memo, self.dc, self.canon, self.busy = {}, {}, {}, set()
        try:
            r = self.norm(d)
        except Split as sp:
            if depth > 8:
                return False
            c = sp.c
            for x in (c, z3.Not(c)):
                self.s.push()
                self.l.push()
                self.s.add(x)
                self.l.add(lin(x))
                ok = self.l.check() == z3.unsat or self.s.check() == z3.unsat or self.zero(d, depth + 1)
                self.s.pop()
                self.l.pop()
                if not ok:
                    return False
            return True
        r = z3.simplify(r, som=True)
        return z3.is_rational_value(r) and r.numerator_as_long() == 0


def poly_prove(E, pc, g, timeout, qpc=()):
    """True if g (an equality of reals) is established"""
    if not (z3.is_eq(g) and z3.is_real(g.arg(0))):
        return False
    p = Poly(E, pc, timeout, qpc)
    try:
        return p.zero(g.arg(0) - g.arg(1))
    except (TimeoutError, NotImplementedError):
        return False
