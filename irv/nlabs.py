"""Abstraction of nonlinear arithmetic: products and quotients of two non-constant
terms become uninterpreted functions.  Unsat of the abstraction implies unsat."""
import z3

R = z3.RealSort()
I = z3.IntSort()
MUL = {R.get_id(): z3.Function('nl*', R, R, R), I.get_id(): z3.Function('nli*', I, I, I)}
INV = z3.Function('nl/', R, R)
_keys = {}


def key(e):
    k = e.get_id()
    if k not in _keys:
        _keys[k] = (e, e.sexpr()[:200])
    return _keys[k][1]


def factors(e, out):
    """e = product of out (numerals included)"""
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_MUL:
        for c in e.children():
            factors(c, out)
    elif k == z3.Z3_OP_UMINUS:
        out.append(z3.RealVal(-1) if z3.is_real(e) else z3.IntVal(-1))
        factors(e.arg(0), out)
    elif k == z3.Z3_OP_DIV:
        factors(e.arg(0), out)
        d = e.arg(1)
        if z3.is_rational_value(d):
            out.append(1 / d)
        else:
            out.append(INV(d))
    else:
        out.append(e)


class Abs:
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.found = False
        self.comm = []
        self.depth = 0

    def __call__(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        r = self.go(e)
        self.memo[k] = r
        return r

    def go(self, e):
        if z3.is_var(e) or (z3.is_app(e) and e.num_args() == 0):
            return e
        if z3.is_quantifier(e):
            self.depth += 1
            b = self(e.body())
            self.depth -= 1
            if b.eq(e.body()):
                return e
            a = (z3.Ast * 1)(b.as_ast())
            return z3.z3._to_expr_ref(z3.Z3_update_term(e.ctx_ref(), e.as_ast(), 1, a), e.ctx)
        ch = [self(c) for c in e.children()]
        kind = e.decl().kind()
        if kind in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and (z3.is_real(e) or kind == z3.Z3_OP_MUL):
            fs = []
            if kind == z3.Z3_OP_MUL:
                for c in ch:
                    factors(c, fs)
            else:
                factors(ch[0], fs)
                if z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1]):
                    fs.append(1 / ch[1])
                else:
                    fs.append(INV(ch[1]))
            num = [f for f in fs if z3.is_rational_value(f) or z3.is_int_value(f) or (z3.is_app(f) and f.num_args() and all(z3.is_rational_value(x) for x in f.children()))]
            ids = {f.get_id() for f in num}
            oth = sorted([f for f in fs if f.get_id() not in ids], key=key)
            if len(oth) >= 2 or (oth and kind == z3.Z3_OP_DIV):
                self.found = self.found or len(oth) >= 2
                r = oth[-1]
                for f in reversed(oth[:-1]):
                    m = MUL[e.sort().get_id()]
                    if not self.depth:
                        self.comm.append(m(f, r) == m(r, f))
                    r = m(f, r)
                for f in num:
                    r = f * r
                return z3.simplify(r) if num else r
        if all(a.eq(b) for a, b in zip(ch, e.children())):
            return e
        if kind == z3.Z3_OP_AND:
            return z3.And(*ch)
        if kind == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if kind == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if kind == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = r * c
            return r
        a = (z3.Ast * len(ch))(*[c.as_ast() for c in ch])
        return z3.z3._to_expr_ref(z3.Z3_update_term(e.ctx_ref(), e.as_ast(), len(ch), a), e.ctx)


def prove(facts, goal, timeout):
    """True when facts imply goal in the abstraction"""
    ab = Abs()
    fs = [ab(z3.simplify(f)) for f in facts]
    g = ab(z3.simplify(goal))
    if not ab.found:
        return None
    for mk in (z3.Solver, z3.SimpleSolver):
        s = mk()
        s.set('timeout', timeout)
        if mk is z3.SimpleSolver:
            s.set('mbqi', False)
            s.set('auto_config', False)
        s.add(fs)
        s.add(ab.comm)
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            return True
    return False
