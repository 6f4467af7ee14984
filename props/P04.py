"""Applying station gains: base/Apply.cc with base/Cursor.h."""
from unit import Target
from specs import *

UNITS = {'apply': 'apply.cc'}
NATIVE = 'P04.cc'
SEARCH_SECS = 6
BOUND = 'random shapes up to 8 baselines x 7 channels x 6 stations with random strides'
ASSUMPTIONS = ['double arithmetic treated as real arithmetic (the order of operations is not part of the property)',
               'visibility buffer contiguous as (baseline, channel, 4), Jones matrices as (station, 2x2 complex); other strides are covered by the bounded runtime contracts']
BL = SStruct({0: SInt(64), 8: SInt(64)}, 16)
CD = SStruct({0: SFp(8), 8: SFp(8)}, 16)
MAX = 1 << 40


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def conj(a):
    return (a[0], -a[1])


def pre(c):
    nb, nc = c.u('nbl', 64), c.u('nch', 64)
    NB, NC = c.p['nbl'], c.p['nch']
    c.assume(z3.And(NB <= MAX, NC <= 1 << 20))
    ns = z3.Int('nstation')
    c.assume(z3.And(ns >= 1, ns <= MAX))
    bl = c.arr('bl', BL, NB)
    co = c.arr('coeff', SFp(8), 8 * ns)
    da = c.arr('data', CD, z3.Int('ndata'))
    S = 4 * NC
    c.assume(c.p['data'].len == NB * S)
    b = c.p['bl'].el
    inst = lambda k: z3.And(*[z3.And(z3.Select(b.f[f].t, k) >= 0, z3.Select(b.f[f].t, k) < ns) for f in (0, 8)])
    c.elem_fact('bl', inst)
    # one arbitrary sample: baseline B, channel C
    B, C = z3.Int('B'), z3.Int('C')
    c.p['B'], c.p['C'] = B, C
    c.assume(z3.And(B >= 0, B < NB, C >= 0, C < NC))
    c.assume(inst(B))
    c.p['S'] = S
    c.p['A'] = B * S + 4 * C
    return [nb, nc, bl, co, da]


def at(c, data, k):
    A = c.p['A']
    return (z3.Select(data[0], A + k), z3.Select(data[1], A + k))


def expected(c):
    """J_p V J_q^H, or V itself for an autocorrelation"""
    B = c.p['B']
    bl = c.p['bl'].el
    p, q = z3.Select(bl.f[0].t, B), z3.Select(bl.f[8].t, B)
    co = c.p['coeff'].el.t
    J = lambda s: [[(z3.Select(co, 8 * s + 4 * i + 2 * j), z3.Select(co, 8 * s + 4 * i + 2 * j + 1)) for j in range(2)] for i in range(2)]
    P, Q = J(p), J(q)
    d0 = c.p['data'].el
    V = [at(c, (d0.f[0].t, d0.f[8].t), k) for k in range(4)]
    out = []
    for i in range(2):
        for j in range(2):
            acc = (z3.RealVal(0), z3.RealVal(0))
            for a in range(2):
                for b in range(2):
                    acc = cadd(acc, cmul(cmul(P[i][a], V[2 * a + b]), conj(Q[j][b])))
            v = V[2 * i + j]
            out.append((z3.If(p == q, v[0], acc[0]), z3.If(p == q, v[1], acc[1])))
    return V, out


def post(c, o):
    if o.threw:
        return [('never throws', False)]
    n = o.st.mem['data'].cells[0].el
    V, W = expected(c)
    r = []
    for k, nm in enumerate(('xx', 'xy', 'yx', 'yy')):
        g = at(c, (n.f[0].t, n.f[8].t), k)
        r += [('Re %s = (Jp V Jq^H)' % nm, g[0] == W[k][0]), ('Im %s = (Jp V Jq^H)' % nm, g[1] == W[k][1])]
    return r


def stride_lemmas(lc, c, names, V, W):
    """data[A..A+3] is the expected value once the cursor is past it, the old
    value before; the rest relates cursors and counters by the row stride"""
    out = []
    A, S, B = c.p['A'], c.p['S'], c.p['B']
    re_, im = names
    for x in lc.lv:
        # multiples of the baseline stride
        out.append(('T:below(%s)' % x, lambda v, x=x: z3.Implies(zi(v.v(x)) < B, zi(v.v(x)) * S + S <= B * S)))
        out.append(('T:above(%s)' % x, lambda v, x=x: z3.Implies(zi(v.v(x)) > B, B * S + S <= zi(v.v(x)) * S)))
        for y in lc.lv:
            if x != y and lc.lv[y].kind == 'ptr':
                out.append(('T:%s=%s*S' % (y, x), lambda v, x=x, y=y: zi(v.v(y)) == zi(v.v(x)) * S))
        if re_ in lc.arrs and lc.lv[x].kind == 'ptr':
            def f(v, x=x):
                d = (v.arr(re_), v.arr(im))
                g = []
                for k in range(4):
                    e = at(c, d, k)
                    g += [e[0] == z3.If(A < zi(v.v(x)), W[k][0], V[k][0]), e[1] == z3.If(A < zi(v.v(x)), W[k][1], V[k][1])]
                return z3.And(*g)
            out.append(('T:data<%s' % x, f))
    return out


def t_data(lc, c):
    V, W = expected(c)
    return stride_lemmas(lc, c, ('data+0.f0v', 'data+0.f8v'), V, W)


def targets(thorough):
    return [('apply', Target('apply', 'drv_apply', pre, post, templates=[t_data], timeout=60000, budget=400, frames=False,
                             about='every sample of every baseline becomes J_p V J_q^H; autocorrelations unchanged'))]
