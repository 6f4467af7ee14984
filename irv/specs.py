"""Specification functions shared by the properties."""
import re
import z3
from values import *
from irparse import Unsupported, INT
from engine import SpecFn
from stdmodels import is_space, is_digit, FindChar, STR, mkstr, NPOS

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
A = z3.ArraySort(I, I)
sel = z3.Select

# position of the first non-blank character of a[p..e), e if there is none
LSkip = SpecFn('LSkip', [A, I, I], I, lambda a, p, e: z3.If(z3.And(p < e, is_space(sel(a, p))), LSkip(a, p + 1, e), p))
# position after the last non-blank character of a[p..e), p if there is none
RSkip = SpecFn('RSkip', [A, I, I], I, lambda a, p, e: z3.If(z3.And(p < e, is_space(sel(a, e - 1))), RSkip(a, p, e - 1), e))


def is_quote(c):
    return z3.Or(c == 34, c == 39)


# position after the delimiter that balances depth n, scanning from p; -1: unbalanced
Bal = SpecFn('Bal', [A, I, I, I, I, I, I], I, lambda a, ln, ch, ec, e, p, n: z3.If(
    p >= e, z3.IntVal(-1), z3.If(
        sel(a, p) == ec, z3.If(n == 1, p + 1, Bal(a, ln, ch, ec, e, p + 1, n - 1)), z3.If(
            sel(a, p) == ch, Bal(a, ln, ch, ec, e, p + 1, n + 1), z3.If(
                is_quote(sel(a, p)), z3.If(FindChar(a, sel(a, p), p + 1, ln) == -1, z3.IntVal(-1),
                                           Bal(a, ln, ch, ec, e, FindChar(a, sel(a, p), p + 1, ln) + 1, n)),
                Bal(a, ln, ch, ec, e, p + 1, n))))))


# ---------------------------------------------------------------- callee contracts
def fork_throw(E, st, throws, ty='_ZTISt13runtime_error'):
    """split on the condition under which the callee throws"""
    out = []
    if E.feasible(st, throws):
        s = st.fork()
        s.assume(z3.simplify(throws))
        out.append(('throw', s, ty))
    ok = z3.simplify(z3.Not(throws))
    if not E.feasible(st, ok):
        return out, None
    st.assume(ok)
    return out, st


def c_lskipws(E, st, a, i):
    n = E.cell_node(st, a[0])
    p, e = zi(a[1].u), zi(a[2].u)
    E.oblige(st, e <= zi(n.len), 'precondition of lskipws')
    r = fresh_int('lskip')
    arr = n.el.t
    st.assume(r == LSkip(arr, p, e))
    st.assume(z3.And(r >= p, z3.Or(r <= e, r == p), z3.Implies(r < e, z3.Not(is_space(sel(arr, r))))))
    k = z3.Int('k!c')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= p, k < r), is_space(sel(arr, k)))))
    return IV(32, u=r)


def c_rskipws(E, st, a, i):
    n = E.cell_node(st, a[0])
    p, e = zi(a[1].u), zi(a[2].u)
    E.oblige(st, e <= zi(n.len), 'precondition of rskipws')
    r = fresh_int('rskip')
    arr = n.el.t
    st.assume(r == RSkip(arr, p, e))
    st.assume(z3.And(r <= e, z3.Or(r >= p, r == e), z3.Implies(r > p, z3.Not(is_space(sel(arr, r - 1))))))
    k = z3.Int('k!c')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= r, k < e), is_space(sel(arr, k)))))
    return IV(32, u=r)


def c_skipQuoted(E, st, a, i):
    n = E.cell_node(st, a[0])
    p = zi(a[1].u)
    E.oblige(st, p < zi(n.len), 'precondition of skipQuoted')
    arr = n.el.t
    f = FindChar(arr, sel(arr, p), p + 1, zi(n.len))
    st.assume(z3.Or(f == -1, z3.And(f > p, f < zi(n.len))))
    out, s = fork_throw(E, st, f == -1)
    if s is not None:
        r = fresh_int('skipq')
        s.assume(z3.And(r == f + 1, r > p + 1, r <= zi(n.len)))
        out.append(('ret', s, IV(32, u=r)))
    return out


def c_skipBalanced(E, st, a, i):
    n = E.cell_node(st, a[0])
    p, e = zi(a[1].u), zi(a[2].u)
    E.oblige(st, z3.And(p < zi(n.len), e <= zi(n.len)), 'precondition of skipBalanced')
    arr = n.el.t
    f = Bal(arr, zi(n.len), sel(arr, p), zi(a[3].s), e, p + 1, z3.IntVal(1))
    st.assume(z3.Or(f == -1, z3.And(f > p + 1, f <= e)))
    out, s = fork_throw(E, st, f == -1)
    if s is not None:
        r = fresh_int('skipb')
        s.assume(r == f)
        out.append(('ret', s, IV(32, u=r)))
    return out


SCANNERS = {r'^dp3::common::lskipws\(': c_lskipws, r'^dp3::common::rskipws\(': c_rskipws,
            r'^dp3::common::skipQuoted\(': c_skipQuoted, r'^dp3::common::skipBalanced\(': c_skipBalanced}


def only(d, *keys):
    return {k: v for k, v in d.items() if any(x in k for x in keys)}


def qc(s):
    """native encoding of a string argument"""
    return 'x' + ''.join('%02x' % b for b in s)


# ---------------------------------------------------------------- C library number parsing (assumed contract)
# length, value and range error of the number that starts at p (no leading blanks) in base b
PLen = {k: z3.Function('PLen_' + k, A, I, I, I, I) for k in ('l', 'ul', 'f', 'd')}
PRng = {k: z3.Function('PRng_' + k, A, I, I, I, B) for k in ('l', 'ul', 'f', 'd')}
PVal = {k: z3.Function('PVal_' + k, A, I, I, I, R if k in 'fd' else I) for k in ('l', 'ul', 'f', 'd')}
ERANGE = 34


def eff_base(a, ln, p, b):
    """base 0: prefix decides"""
    if b != 0:
        return z3.IntVal(b)
    hexa = z3.And(p + 1 < ln, sel(a, p) == 48, z3.Or(sel(a, p + 1) == 120, sel(a, p + 1) == 88))
    sign = z3.Or(sel(a, p) == 43, sel(a, p) == 45)
    return z3.If(hexa, z3.IntVal(16), z3.If(sign, z3.IntVal(0), z3.If(sel(a, p) == 48, z3.IntVal(8), z3.IntVal(10))))


def c_strto(E, st, a, i):
    kind = {'strtol': 'l', 'strtoll': 'l', 'strtoul': 'ul', 'strtoull': 'ul', 'strtof': 'f', 'strtod': 'd'}[re.sub(r'^__isoc23_|^std::|\(.*$', '', i.dem)]
    E.assumptions.add('strtol/strtoul/strtof/strtod as in the C standard (C locale): skip blanks, parse the longest number, set *end and ERANGE')
    p = E.norm(st, a[0])
    if len(p.path) != 3:
        raise Unsupported('strto* on plain memory')
    n = E.cell_node(st, Ptr(p.root, p.path[:-2]))
    arr, ln, s0 = n.el.t, zi(n.len), zi(p.path[-2])
    b = 10
    if len(a) > 2:
        b = a[2].const()
        if b is None:
            raise Unsupported('symbolic base')
    s1 = fresh_int('num')
    k = z3.Int('k!n')
    st.assume(s1 == LSkip(arr, s0, ln))
    st.assume(z3.And(s1 >= s0, s1 <= ln, z3.Implies(s1 < ln, z3.Not(is_space(sel(arr, s1))))))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= s0, k < s1), is_space(sel(arr, k)))))
    eb = eff_base(arr, ln, s1, b)
    pl, rg, v = (f[kind](arr, ln, s1, eb) for f in (PLen, PRng, PVal))
    st.assume(z3.And(pl >= 0, s1 + pl <= ln, z3.Implies(pl == 0, z3.Not(rg)), z3.Implies(s1 == ln, pl == 0)))
    end = fresh_int('nend')
    st.assume(end == z3.If(pl == 0, s0, s1 + pl))
    if isinstance(a[1], Ptr) and a[1].root is not None:
        E.store(st, a[1], Ptr(p.root, p.path[:-2] + (end, 0)))
    ep = errno_ptr(E, st)
    old = st.mem[ep.root].cells[0]
    E.store(st, ep, IV(32, s=z3.If(rg, z3.IntVal(ERANGE), zi(old.s))))
    if kind in 'fd':
        return FV(v, 4 if kind == 'f' else 8)
    r = fresh_int('nval')
    st.assume(r == v)
    if kind == 'l':
        st.assume(z3.And(r >= -(1 << 63), r < (1 << 63)))
        return IV(64, s=r)
    st.assume(z3.And(r >= 0, r < (1 << 64)))
    return IV(64, u=r)


def errno_ptr(E, st):
    for rx, f in E.models:
        if rx.search('__errno_location'):
            return f(E, st, [], None)
    raise Unsupported('errno')


STRTO = {r'^(__isoc23_)?(std::)?strto(l|ul|ll|ull|f|d)(\(.*)?$': c_strto}
