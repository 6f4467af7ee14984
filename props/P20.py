"""Phase unwrapping and line fits (common/PhaseLineFitter.h, ddecal/constraints/PieceWisePhaseFitter.h)."""
from unit import Target, named_node
from specs import *
from engine import Obj
from irparse import INT, PTR, Ty, Unsupported
from fractions import Fraction
import math

UNITS = {'phase': 'phase.cc'}
NATIVE = 'P20.cc'
CXXFLAGS = ['-fno-access-control']
SEARCH_SECS = 10
BOUND = 'random series of up to 30 samples, integer and real weights, windows from 0 to 12, regular and irregular grids'
ASSUMPTIONS = ['floating-point values treated as reals; fmod exact', 'the wrapping reference of a chunk fit is some value (chosen with std::nth_element or WeightedMedian)', 'std::sort sorts']
AR = z3.ArraySort(I, R)
DBL = Ty('fp', 'double')
F8 = SFp(8)
VD = SVec(F8, 8)
SAMPLE = SStruct({0: F8, 8: F8, 16: F8}, 24)
VS = SVec(SAMPLE, 24)
PAIR = SStruct({0: F8, 8: F8}, 16)
VP = SVec(PAIR, 16)
rv = lambda x: z3.RealVal(str(Fraction(repr(x))))
PI = rv(math.pi)
T = rv(2 * math.pi)
MAXD = rv(1.7976931348623157e308)
# y moved by whole turns to [-pi, pi)
Wrap = z3.Function('Wrap', R, R)
Turns = z3.Function('Turns', R, I)
ab = lambda x: z3.If(x >= 0, x, -x)


def wrapdef(c):
    x = z3.Real('x!w')
    c.assume(z3.ForAll([x], z3.And(Wrap(x) >= -PI, Wrap(x) < PI, Wrap(x) == x - T * z3.ToReal(Turns(x))), patterns=[Wrap(x)]))


def summed(name, sorts, term):
    """sum of term(args, k) for k in [0, n)"""
    f = SpecFn(name, sorts + [I], R, lambda *a: z3.If(a[-1] <= 0, z3.RealVal(0), f(*a[:-1], a[-1] - 1) + term(*a[:-1], a[-1] - 1)))
    return f


m_ = lambda x, s, k: s * sel(x, k)
dist = lambda e, w: z3.If(Wrap(e) >= 0, Wrap(e) * w, -Wrap(e) * w)
Num = summed('Num', [AR, AR, AR, R], lambda x, y, w, s, k: sel(x, k) * sel(w, k) * (m_(x, s, k) + Wrap(sel(y, k) - m_(x, s, k))))
Den = summed('Den', [AR, AR], lambda x, w, k: sel(x, k) * sel(w, k) * sel(x, k))
Cost = summed('Cost', [AR, AR, AR, R], lambda x, y, w, s, k: dist(ab(m_(x, s, k) - sel(y, k)), sel(w, k)))
Sum1 = summed('Sum1', [AR], lambda w, k: sel(w, k))


def data(c):
    d = c.obj('data', VS, maxlen=1 << 40)
    n = c.p['data']
    wrapdef(c)
    c.p.update(x=n.el.f[0].t, y=n.el.f[8].t, w=n.el.f[16].t, n=zi(n.len))
    return d


def c_fmod(E, st, a, i):
    """fmod by one turn, in terms of the value moved to [-pi, pi)"""
    x, y = a[0].r, z3.simplify(a[1].r)
    if not y.eq(z3.simplify(T)):
        raise Unsupported('fmod by something else than a turn')
    E.assumptions.add('std::fmod is exact')
    w = Wrap(x)
    out = []
    for cond, v in ((z3.And(x >= 0, w >= 0), w), (z3.And(x >= 0, w < 0), w + T), (z3.And(x < 0, w <= 0), w), (z3.And(x < 0, w > 0), w - T)):
        if E.feasible(st, cond):
            s = st.fork()
            s.assume(cond)
            out.append(('ret', s, FV(z3.simplify(v), 8)))
    return out


def pre_fitone(c):
    return [data(c), c.real('s')]


def post_unwrapfit(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    d = Den(p['x'], p['w'], p['n'])
    return [('weighted least squares slope of the unwrapped values', o.val.r == z3.If(d != 0, Num(p['x'], p['y'], p['w'], p['s'], p['n']) / d, 0))]


def post_cost(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    d = Sum1(p['w'], p['n'])
    return [('weighted mean distance in turns', o.val.r == z3.If(d != 0, Cost(p['x'], p['y'], p['w'], p['s'], p['n']) / d, 0))]


def t_sums(terms):
    """loop sums: every float variable against every sum"""
    def f(lc, c):
        out = []
        for x in lc.lv:
            if lc.lv[x].kind not in ('int', 'ptr'):
                continue
            for r, g in lc.reals.items():
                for nm, t in terms(c):
                    def h(v, g=g, x=x, t=t):
                        i = v.v(x)
                        i = zi(i.path[-2]) if isinstance(i, Ptr) else zi(i)
                        return z3.And(i >= 0, g(v.st, v.regs) == t(i))
                    out.append(('T:%s(%s,%s)' % (nm, r, x), h))
        return out
    return f


def s_fit(c):
    p = c.p
    return [('num', lambda i: Num(p['x'], p['y'], p['w'], p['s'], i)), ('den', lambda i: Den(p['x'], p['w'], i))]


def s_cost(c):
    p = c.p
    return [('cost', lambda i: Cost(p['x'], p['y'], p['w'], p['s'], i)), ('wsum', lambda i: Sum1(p['w'], i))]


# ---- the range of slopes and the search
def maxabs(c):
    x, n = c.p['x'], c.p['n']
    a, b = ab(sel(x, 0)), ab(sel(x, n - 1))
    return z3.If(a >= b, a, b)


def pre_range(big, limited):
    def f(c):
        d = data(c)
        x, n = c.p['x'], c.p['n']
        c.assume(n >= 20 if big else z3.And(n >= 1, n < 20))
        i, j = z3.Ints('i!o j!o')
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), sel(x, i) <= sel(x, j)), patterns=[z3.MultiPattern(sel(x, i), sel(x, j))]))
        # the number of wraps fits an int
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < n, sel(x, i) < sel(x, i + 1)), maxabs(c) <= (1 << 30) * (sel(x, i + 1) - sel(x, i))), patterns=[sel(x, i)]))
        c.assume(z3.And(maxabs(c) < MAXD / 4, maxabs(c) > 0))
        out = c.out('out')
        if limited:
            l = c.s('limit', 32)
            return [d, l, out]
        return [d, out]
    return f


def pre_range0(c):
    d = data(c)
    c.assume(c.p['n'] == 0)
    return [d, c.out('out')]


def rcells(o):
    m, s = o.cell('out', 0), o.cell('out', 8)
    return zi(m.s), s.r


def post_range0(c, o):
    if o.threw:
        return [('never throws', False)]
    m, s = rcells(o)
    return [('nothing to search', z3.And(m == 0, s == 0))]


def post_range(big, limited):
    def f(c, o):
        if o.threw:
            return [('never throws', False)]
        m, s = rcells(o)
        x, n = c.p['x'], c.p['n']
        k = z3.Int('k!p')
        M = maxabs(c)
        r = [('a step turns the largest |x| by half a turn', s * M == PI)]
        lim = c.p.get('limit')
        low = []
        if lim is not None:
            low.append(m == lim)
            r.append(('at most the limit', m <= lim))
        if not big:
            low.append(z3.Or(*[z3.And(n == t, m == 10 * (2 << t)) for t in range(1, 20)]))
        some = sel(x, k + 1) - sel(x, k)
        r.append(('all wraps that neighbouring samples can resolve', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k + 1 < n, some > 0), z3.Or(z3.ToReal(m) * some >= M, *low)), patterns=[sel(x, k)])))
        return r
    return f


def t_range(lc, c):
    out = []
    x = c.p['x']
    k = z3.Int('k!t')
    for i in lc.lv:
        if lc.lv[i].kind != 'int':
            continue
        for r, g in lc.reals.items():
            out.append(('T:min(%s,%s)' % (r, i), lambda v, g=g, i=i: z3.And(zi(v.v(i)) >= 0, g(v.st, v.regs) > 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(i)), sel(x, k + 1) - sel(x, k) > 0), g(v.st, v.regs) <= sel(x, k + 1) - sel(x, k)), patterns=[sel(x, k)]))))
            out.append(('T:attained(%s)' % r, lambda v, g=g: z3.And(g(v.st, v.regs) > 0, z3.Or(g(v.st, v.regs) == MAXD, g(v.st, v.regs) * (1 << 30) >= maxabs(c)))))
    return out


FitF = z3.Function('UnwrapAndFit', R, R)
CostF = z3.Function('SlopeModelCost', R, R)


def pre_fit(c):
    d = c.obj('data', VS, maxlen=1 << 40)
    r = c.obj('range', SStruct({0: SInt(32, 's'), 8: F8}, 16))
    m, s = c.p['range'].f[0].t, c.p['range'].f[8].t
    c.p.update(m=m, step=s)
    c.assume(z3.And(m >= 0, m < (1 << 30)))
    e = z3.Real('e!c')
    c.assume(z3.ForAll([e], z3.And(CostF(e) >= 0, CostF(e) < MAXD), patterns=[CostF(e)]))
    return [d, r]


def cand(c, k):
    return FitF(c.p['step'] * z3.ToReal(k))


def post_fit(c, o):
    if o.threw:
        return [('never throws', False)]
    m = c.p['m']
    i, k = z3.Ints('i!p k!p')
    best = c.p.get('best')
    return [('the refined fit of a candidate of lowest cost', z3.Exists([i], z3.And(i >= -m, i <= m, o.val.r == FitF(cand(c, i)), z3.ForAll([k], z3.Implies(z3.And(k >= -m, k <= m), CostF(cand(c, i)) <= CostF(cand(c, k)))))))]


def t_fit(lc, c):
    out = []
    m = c.p['m']
    k = z3.Int('k!t')
    for x in lc.lv:
        if lc.lv[x].kind != 'int':
            continue
        for a, ga in lc.reals.items():
            for b, gb in lc.reals.items():
                if a == b:
                    continue

                def h(v, x=x, ga=ga, gb=gb):
                    i, cost, est = zi(v.v(x)), ga(v.st, v.regs), gb(v.st, v.regs)
                    j = z3.Int('j!t')
                    return z3.And(i >= -m, z3.ForAll([k], z3.Implies(z3.And(k >= -m, k < i), cost <= CostF(cand(c, k)))),
                                  z3.Implies(i > -m, z3.And(cost == CostF(est), z3.Exists([j], z3.And(j >= -m, j <= m, est == cand(c, j))))), z3.Implies(i == -m, cost == MAXD))
                out.append(('T:best(%s,%s,%s)' % (x, a, b), h))
    return out


def c_same(F):
    def f(E, st, a, i):
        p = E.norm(st, a[0])
        E.oblige(st, z3.BoolVal(p.root == 'data'), 'called for the same data')
        return FV(F(a[1].r), 8)
    return f


CON_FIT = {r'^dp3::common::phase_fitting::UnwrapAndFit\(': c_same(FitF), r'^dp3::common::phase_fitting::SlopeModelCost\(': c_same(CostF)}


# ---- unwrapping
def pre_unwrap(c):
    n = z3.Int('n')
    c.assume(z3.And(n >= 1, n < 1 << 40))
    c.p['n'] = n
    a = c.arr('v', F8, n)
    return [a, Ptr(a.root, a.path[:-2] + (n, 0))]


def whole_turns(a, b):
    return z3.IsInt((a - b) / T)


def post_unwrap(c, o):
    if o.threw:
        return [('never throws', False)]
    k = z3.Int('k!p')
    u, v, n = o.st.mem['v'].cells[0].el.t, c.p['v'].el.t, c.p['n']
    return [('at most half a turn between neighbours', z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < n), z3.And(sel(u, k) - sel(u, k - 1) <= PI, sel(u, k - 1) - sel(u, k) <= PI)))),
            ('moved by whole turns', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), whole_turns(sel(u, k), sel(v, k))))),
            ('first value kept', sel(u, 0) == sel(v, 0))]


def t_unwrap(lc, c):
    out = []
    k = z3.Int('k!t')
    V0, n = c.p['v'].el.t, c.p['n']

    def pos(x):
        return zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    for (base, _, off), (idx, get) in lc.elems.items():
        g0 = lc.entry.st.mem['v'].cells[0].el.t
        out.append(('T:turns', lambda v, get=get, idx=idx: whole_turns(get(v.st, v.regs), sel(V0, idx))))
        out.append(('T:below', lambda v, get=get, idx=idx: get(v.st, v.regs) - sel(g0, idx - 1) <= PI))
    for nm in lc.arrs:
        if lc.arrs[nm](lc.entry.st, lc.entry.regs).sort() != AR:
            continue
        out.append(('T:turns(%s)' % nm, lambda v, nm=nm: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), whole_turns(sel(v.arr(nm), k), sel(V0, k))), patterns=[sel(V0, k)])))
        out.append(('T:first(%s)' % nm, lambda v, nm=nm: sel(v.arr(nm), 0) == sel(V0, 0)))
        for x in lc.lv:
            if lc.lv[x].kind in ('ptr', 'int'):
                out.append(('T:close(%s,%s)' % (nm, x), lambda v, nm=nm, x=x: z3.And(pos(v.v(x)) >= 1, z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < pos(v.v(x))), z3.And(sel(v.arr(nm), k) - sel(v.arr(nm), k - 1) <= PI, sel(v.arr(nm), k - 1) - sel(v.arr(nm), k) <= PI))))))
                out.append(('T:rest(%s,%s)' % (nm, x), lambda v, nm=nm, x=x: z3.ForAll([k], z3.Implies(z3.And(k >= pos(v.v(x)), k < n), sel(v.arr(nm), k) == sel(V0, k)))))
    return out


# ---- weighted median
WS = summed('WS', [AR], lambda w, k: sel(w, k))


def pre_wmedian(c):
    d = c.obj('v', VP, maxlen=1 << 30)
    k = z3.Int('k!w')
    w = c.p['v'].el.f[8].t
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(c.p['v'].len)), sel(w, k) >= 0), patterns=[sel(w, k)]))
    c.p['sorted'] = None
    return [d]


def c_sortpairs(E, st, a, i):
    p, q = E.norm(st, a[0]), E.norm(st, a[1])
    n = E.cell_node(st, Ptr(p.root, p.path[:-2]))
    E.oblige(st, z3.And(zi(p.path[-2]) == 0, zi(q.path[-2]) == zi(n.len)), 'sort: the whole vector')
    E.assumptions.add('std::sort rearranges the pairs in ascending order')
    f, w = fresh('first', AR), fresh('second', AR)
    pm, ip = (z3.Function(x + str(fresh_int('pf')), I, I) for x in ('perm', 'inv'))
    j, k = z3.Ints('j!s k!s')
    ln = zi(n.len)
    rg = lambda x: z3.And(x >= 0, x < ln)
    st.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k < ln), sel(f, j) <= sel(f, k)), patterns=[z3.MultiPattern(sel(f, j), sel(f, k))]))
    st.assume(z3.ForAll([k], z3.Implies(rg(k), z3.And(rg(pm(k)), ip(pm(k)) == k, sel(f, k) == sel(n.el.f[0].t, pm(k)), sel(w, k) == sel(n.el.f[8].t, pm(k)))), patterns=[sel(w, k)]))
    o = st.mem[p.root].copy()
    st.mem[p.root] = o
    o.cells[p.path[0]] = VecN(n.shape, n.len, StructN(n.el.shape, {0: Leaf(F8, f), 8: Leaf(F8, w)}))
    E.ctx.p['sorted'] = (f, w)
    return None


def post_wmedian(c, o):
    if o.threw:
        return [('never throws', False)]
    n = zi(c.p['v'].len)
    v = o.val.r
    if c.p['sorted'] is None:
        return [('0 for no values', z3.And(n == 0, v == 0))]
    nd = o.st.mem['v'].cells[0].el
    f, w = nd.f[0].t, nd.f[8].t
    i = z3.Int('i!p')
    tot = WS(w, n)
    return [('no more than half the weight before it, or after it', z3.If(n == 0, v == 0, z3.Exists([i], z3.And(i >= 0, i < n, v == sel(f, i), 2 * WS(w, i) <= tot, 2 * (tot - WS(w, i + 1)) <= tot))))]


def t_wmedian(lc, c):
    out = []
    nd = [x for x in [lc.entry.st.mem['v'].cells[0].el]][0]
    f, w = nd.f[0].t, nd.f[8].t
    n = zi(c.p['v'].len)
    tot = WS(w, n)

    def pos(x):
        return zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    for x in lc.lv:
        if lc.lv[x].kind not in ('int', 'ptr'):
            continue
        for r, g in lc.reals.items():
            out.append(('T:sum(%s,%s)' % (r, x), lambda v, g=g, x=x: z3.And(pos(v.v(x)) >= 0, g(v.st, v.regs) >= 0, g(v.st, v.regs) == WS(w, pos(v.v(x))))))
            out.append(('T:after(%s,%s)' % (r, x), lambda v, g=g, x=x: z3.And(pos(v.v(x)) >= 0, pos(v.v(x)) < n, g(v.st, v.regs) == tot - WS(w, pos(v.v(x)) + 1), WS(w, n) >= 0, 2 * WS(w, pos(v.v(x))) <= tot)))
    return out


# ---- sliding and piece-wise fits, for any line fit of a chunk
LA, LB = (z3.Function(x, I, I, R) for x in ('offset of the line', 'gradient of the line'))


def pw(c):
    ch = z3.Int('chunk')
    c.assume(z3.And(ch >= 0, ch < 1 << 64))
    c.p['chunk'] = ch
    c.st0.mem['p'] = Obj('p', {0: IV(64, u=ch), 8: named_node(VD, 0, 'tmp'), 32: named_node(VP, 0, 'tmpw')}, None, 'mem')
    for t in ('tmp', 'tmpw'):
        pass
    o = c.st0.mem['p'].cells
    for k in (8, 32):
        c.assume(z3.And(zi(o[k].len) >= 0, zi(o[k].len) < 1 << 40))
    c.ptr['p'] = Ptr('p')
    return Ptr('p')


def size(c):
    n = z3.Int('n')
    c.assume(z3.And(n >= 0, n < 1 << 40))
    c.p['n'] = n
    return n


def chunk(c):
    return z3.If(c.p['chunk'] < c.p['n'], c.p['chunk'], c.p['n'])


def pre_sliding(weighted):
    def f(c):
        p, n = pw(c), size(c)
        r = [p, c.arr('nu', F8, n), c.arr('d', F8, n)]
        if weighted:
            r.append(c.arr('w', F8, n))
        return r + [c.arr('f', F8, n), IV(64, u=n)]
    return f


def expected(c, pos, k):
    return LA(pos, chunk(c)) + LB(pos, chunk(c)) * sel(c.p['NU'] if 'NU' in c.p else c.p['nu'].el.t, k)


def at_sliding(c, k):
    n, ch = c.p['n'], chunk(c)
    d = c.p['D'] if 'D' in c.p else c.p['d'].el.t
    h = half(c)
    pos = z3.If(k - h < 0, 0, z3.If(k - h > n - ch, n - ch, k - h))
    return z3.If(ch <= 1, sel(d, k), expected(c, pos, k))


def half(c):
    h = z3.Int('half chunk')
    return h


def sliding_facts(c):
    h = half(c)
    c.assume(z3.And(2 * h <= chunk(c), chunk(c) < 2 * h + 2, h >= 0))


def pre_sl(weighted):
    g = pre_sliding(weighted)

    def f(c):
        r = g(c)
        sliding_facts(c)
        return r
    return f


def post_sliding(c, o):
    if o.threw:
        return [('never throws', False)]
    k = z3.Int('k!p')
    u = o.st.mem['f'].cells[0].el.t
    return [('every value on the line of its window', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.p['n']), sel(u, k) == at_sliding(c, k))))]


def t_sliding(lc, c):
    out = []
    k = z3.Int('k!t')
    for nm in lc.arrs:
        if lc.arrs[nm](lc.entry.st, lc.entry.regs).sort() != AR:
            continue
        for x in lc.lv:
            if lc.lv[x].kind != 'int':
                continue
            for off in (0, half(c)):
                out.append(('T:done(%s,%s+%s)' % (nm, x, off), lambda v, nm=nm, x=x, off=off: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(x)) + off), sel(v.arr(nm), k) == at_sliding(c, k)))))
    return out


def c_line(weighted, names=('d', 'nu', 'w')):
    def f(E, st, a, i):
        ps = [E.norm(st, x) for x in a[1:3 + weighted]]
        n = zi(a[3 + weighted].u)
        off = [zi(p.path[-2]) for p in ps]
        ln = E.ctx.p['n']
        E.oblige(st, z3.And(*[o == off[0] for o in off], n >= 2, off[0] >= 0, off[0] + n <= ln, *[z3.BoolVal(p.root == nm) for p, nm in zip(ps, names)]), 'fit of corresponding samples inside the data')
        E.store(st, a[-2], FV(LA(off[0], n), 8), DBL)
        E.store(st, a[-1], FV(LB(off[0], n), 8), DBL)
        return None
    return f


P_ = r'^dp3::ddecal::PieceWisePhaseFitter::'
CON_LINE = {P_ + r'fitSlope\(double const\*, double const\*, unsigned long, double&, double&\)': c_line(0), P_ + r'fitSlope\(double const\*, double const\*, double const\*, unsigned long, double&, double&\)': c_line(1)}

# multiples of the chunk size
Mult = z3.Function('Mult', I, z3.BoolSort())
Start = z3.Function('Start', I, I)


def pre_piecewise(weighted):
    def f(c):
        p, n = pw(c), size(c)
        nu, d, fo = c.obj('nu', VD), c.obj('d', VD), c.obj('f', VD)
        c.assume(z3.And(zi(c.p['nu'].len) == n, zi(c.p['d'].len) == n, zi(c.p['f'].len) == n))
        c.p.update(NU=c.p['nu'].el.t, D=c.p['d'].el.t)
        ch = chunk(c)
        x, y = z3.Ints('x!m y!m')
        c.assume(z3.Implies(ch > 0, z3.And(Mult(0), z3.ForAll([x], z3.Implies(Mult(x), Mult(x + ch)), patterns=[Mult(x)]),
                                           z3.ForAll([x], z3.And(Mult(Start(x)), Start(x) <= x, x < Start(x) + ch), patterns=[Start(x)]),
                                           z3.ForAll([x, y], z3.Implies(z3.And(Mult(x), Mult(y), x < y), y >= x + ch), patterns=[z3.MultiPattern(Mult(x), Mult(y))]))))
        r = [p, nu, d]
        if weighted:
            r.append(c.arr('w', F8, n))
        return r + [fo]
    return f


def at_piece(c, k):
    n, ch = c.p['n'], chunk(c)
    return z3.If(ch <= 1, sel(c.p['D'], k), expected(c, z3.If(k >= n - ch, n - ch, Start(k)), k))


def post_piecewise(c, o):
    if o.threw:
        return [('never throws', False)]
    k = z3.Int('k!p')
    nd = o.st.mem['f'].cells[0]
    return [('one value per sample', zi(nd.len) == c.p['n']), ('every value on the line of its chunk', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.p['n']), sel(nd.el.t, k) == at_piece(c, k))))]


def t_piecewise(lc, c):
    out = []
    k = z3.Int('k!t')
    n, ch = c.p['n'], chunk(c)
    regs = lc.entry.regs
    outer, seen = [], set()
    for x, v in regs.items():
        if isinstance(v, IV) and v.w == 64 and v.const() is None and x not in lc.lv:
            e = zi(v.u)
            if e.get_id() not in seen:
                seen.add(e.get_id())
                outer.append((x, v))
    for nm in lc.arrs:
        a0 = lc.arrs[nm](lc.entry.st, regs)
        if a0.sort() != AR:
            continue
        for x in lc.lv:
            if lc.lv[x].kind != 'int':
                continue
            out.append(('T:mult(%s)' % x, lambda v, x=x: z3.And(zi(v.v(x)) >= 0, Mult(zi(v.v(x))))))
            out.append(('T:done(%s,%s)' % (nm, x), lambda v, nm=nm, x=x: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(x)), k < n, z3.Or(k < n - ch, zi(v.v(x)) >= n)), sel(v.arr(nm), k) == at_piece(c, k)))))
            for ox, ov in outer:
                pos = zi(ov.u)
                out.append(('T:line(%s,%s,%s)' % (nm, x, ox), lambda v, nm=nm, x=x, pos=pos: z3.ForAll([k], z3.Implies(z3.And(k >= pos, k < pos + zi(v.v(x))), sel(v.arr(nm), k) == expected(c, pos, k)))))
                out.append(('T:kept(%s,%s,%s)' % (nm, x, ox), lambda v, nm=nm, x=x, pos=pos, a0=a0: z3.ForAll([k], z3.Implies(k < pos, sel(v.arr(nm), k) == sel(a0, k)))))
    return out


# ---- break point
Dev = SpecFn('Dev', [AR, AR, AR, I, I], R, lambda d, f, w, i, b: z3.If(b <= 0, z3.RealVal(0), Dev(d, f, w, i, b - 1) + ab(sel(d, i + b - 1) - sel(f, i + b - 1)) * sel(w, i + b - 1)))


def pre_break(c):
    p, n = pw(c), size(c)
    r = [p, c.arr('d', F8, n), c.arr('w', F8, n), c.arr('f', F8, n), IV(64, u=n)]
    sliding_facts_full(c)
    return r


def sliding_facts_full(c):
    h = half(c)
    c.assume(z3.And(2 * h <= c.p['chunk'], c.p['chunk'] < 2 * h + 2, h >= 0))


def dev(c, i, b=None):
    return Dev(c.p['d'].el.t, c.p['f'].el.t, c.p['w'].el.t, i, chunk(c) if b is None else b)


def post_break(c, o):
    if o.threw:
        return [('never throws', False)]
    v, k, h, n = zi(o.val.u), z3.Int('k!p'), half(c), c.p['n']
    at = dev(c, v - h)
    return [('middle of a window with the largest weighted deviation, or 0', z3.Or(z3.And(v == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n - chunk(c)), dev(c, k) <= 0))),
                                                                                   z3.And(v >= h, v - h < n - chunk(c), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n - chunk(c)), dev(c, k) <= at)))))]


def t_break(lc, c):
    out = []
    k, h, n = z3.Int('k!t'), half(c), c.p['n']
    outer, seen = [], set()
    for x, v in lc.entry.regs.items():
        if isinstance(v, IV) and v.w == 64 and v.const() is None and x not in lc.lv:
            e = zi(v.u)
            if e.get_id() not in seen:
                seen.add(e.get_id())
                outer.append((x, v))
    ints = [x for x in lc.lv if lc.lv[x].kind == 'int']
    for x in ints:
        for r, g in lc.reals.items():
            for ox, ov in outer:
                out.append(('T:dev(%s,%s,%s)' % (r, x, ox), lambda v, g=g, x=x, ov=ov: z3.And(zi(v.v(x)) >= 0, g(v.st, v.regs) == dev(c, zi(ov.u), zi(v.v(x))))))
            for y in ints:
                if x != y:
                    out.append(('T:largest(%s,%s,%s)' % (r, x, y), lambda v, g=g, x=x, y=y: z3.And(zi(v.v(x)) >= 0, zi(v.v(y)) >= 0, g(v.st, v.regs) >= 0,
                                z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(x))), dev(c, k) <= g(v.st, v.regs))),
                                z3.Or(z3.And(zi(v.v(y)) == 0, g(v.st, v.regs) == 0), z3.And(zi(v.v(y)) >= h, zi(v.v(y)) - h < n - chunk(c), g(v.st, v.regs) == dev(c, zi(v.v(y)) - h))))))
    return out


# ---- fit with a break, for any sliding fit and break point
SF = z3.Function('value of the sliding fit', I, I, I, R)


def c_sf(E, st, a, i):
    ps = [E.norm(st, x) for x in a[1:5]]
    n, off = zi(a[5].u), [zi(p.path[-2]) for p in ps]
    E.oblige(st, z3.And(*[x == off[0] for x in off], n >= 0, off[0] >= 0, off[0] + n <= E.ctx.p['n'], *[z3.BoolVal(p.root == nm) for p, nm in zip(ps, ('nu', 'd', 'w', 'f'))]), 'sliding fit of corresponding samples')
    o = st.mem['f'].copy()
    st.mem['f'] = o
    nd = o.cells[0]
    b, k = fresh('fitted', AR), z3.Int('k!f')
    st.assume(z3.ForAll([k], sel(b, k) == z3.If(z3.And(k >= off[0], k < off[0] + n), SF(off[0], n, k), sel(nd.el.t, k)), patterns=[sel(b, k)]))
    o.cells[0] = VecN(nd.shape, nd.len, Leaf(nd.el.shape, b))
    return None


def c_bp(E, st, a, i):
    ps = [E.norm(st, x) for x in a[1:4]]
    p, k = E.ctx.p, z3.Int('k!f')
    n = zi(a[4].u)
    E.oblige(st, z3.And(n == p['n'], *[zi(x.path[-2]) == 0 for x in ps], *[z3.BoolVal(x.root == nm) for x, nm in zip(ps, ('d', 'w', 'f'))]), 'break point of the whole fit')
    E.oblige(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(st.mem['f'].cells[0].el.t, k) == SF(0, n, k))), 'break point of the fit without a break')
    b = p['bp']
    st.assume(z3.And(b >= 0, b <= n))
    return IV(64, u=b)


def pre_withbreak(c):
    c.p['bp'] = z3.Int('break point')
    return pre_sliding(True)(c)


def post_withbreak(c, o):
    if o.threw:
        return [('never throws', False)]
    k, n, b = z3.Int('k!p'), c.p['n'], c.p['bp']
    u, v = o.st.mem['f'].cells[0].el.t, zi(o.val.u)
    one = chunk(c) <= 1
    return [('break point', v == z3.If(one, 0, b)),
            ('data for a window of one', z3.Implies(one, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(u, k) == sel(c.p['d'].el.t, k))))),
            ('separate fits on both sides', z3.Implies(z3.Not(one), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(u, k) == z3.If(k < b, SF(0, b, k), SF(b, n - b, k))))))]


CON_BREAK = {P_ + r'SlidingFit\(double const\*, double const\*, double const\*, double\*, unsigned long\)': c_sf, P_ + r'BreakPoint\(': c_bp}


# ---- the line fit of a chunk
mv = lambda v, r: z3.If(v - r > PI, v - T, z3.If(v - r < -PI, v + T, v))
Sx = summed('Sx', [AR, AR], lambda x, w, k: sel(x, k) * sel(w, k))
Sxx = summed('Sxx', [AR, AR], lambda x, w, k: sel(x, k) * sel(x, k) * sel(w, k))
Sy = summed('Sy', [AR, AR, R], lambda y, w, r, k: mv(sel(y, k), r) * sel(w, k))
Sxy = summed('Sxy', [AR, AR, AR, R], lambda x, y, w, r, k: sel(x, k) * mv(sel(y, k), r) * sel(w, k))
ONE = z3.K(I, z3.RealVal(1))
Cnt = SpecFn('Cnt', [I], R, lambda k: z3.If(k <= 0, z3.RealVal(0), Cnt(k - 1) + 1))


def pre_slope(weighted):
    def f(c):
        p, n = pw(c), size(c)
        c.assume(n >= 2)
        r = [p, c.arr('d', F8, n), c.arr('nu', F8, n)]
        if weighted:
            r.append(c.arr('w', F8, n))
            k = z3.Int('k!w')
            W = c.p['w'].el.t
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(sel(W, k) >= 0, sel(W, k) < 1 << 20)), patterns=[sel(W, k)]))
        c.p['ref'] = z3.Real('wrapping reference')
        a, b = c.obj('a', F8), c.obj('b', F8)
        return r + [IV(64, u=n), a, b]
    return f


def slope_sums(c, weighted):
    x, y, n, r = c.p['nu'].el.t, c.p['d'].el.t, c.p['n'], c.p['ref']
    w = c.p['w'].el.t if weighted else ONE
    return [('S', lambda i: Sum1(w, i) if weighted else z3.ToReal(i)), ('Sx', lambda i: Sx(x, w, i)), ('Sxx', lambda i: Sxx(x, w, i)), ('Sy', lambda i: Sy(y, w, r, i)), ('Sxy', lambda i: Sxy(x, y, w, r, i))]


def post_slope(weighted):
    def f(c, o):
        if o.threw:
            return [('never throws', False)]
        a, b = o.st.mem['a'].cells[0].r, o.st.mem['b'].cells[0].r
        S, X, XX, Y, XY = [t(c.p['n']) for _, t in slope_sums(c, weighted)]
        ok = z3.And(S != 0, XX * S - X * X != 0)
        r = [('normal equation for the offset', z3.Implies(ok, a * S + b * X == Y)), ('normal equation for the gradient', z3.Implies(ok, a * X + b * XX == XY))]
        if weighted:
            r.append(('zero line without weights', z3.Implies(S == 0, z3.And(a == 0, b == 0))))
        return r
    return f


def c_wmedian(E, st, a, i):
    p, q, w = (E.norm(st, x) for x in a[1:4])
    n = E.ctx.p['n']
    f, l = zi(p.path[-2]), zi(q.path[-2])
    E.oblige(st, z3.And(f >= 0, f <= l, l <= n, z3.BoolVal(w.root == 'w'), zi(w.path[-2]) == f), 'median of the values with their own weights')
    return FV(E.ctx.p['ref'], 8)


def c_nth(E, st, a, i):
    p, q, e = (E.norm(st, x) for x in a[:3])
    vp = Ptr(p.root, p.path[:-2])
    n = E.cell_node(st, vp)
    E.oblige(st, z3.And(zi(p.path[-2]) == 0, zi(e.path[-2]) == zi(n.len), zi(q.path[-2]) >= 0, zi(q.path[-2]) < zi(n.len)), 'nth_element: a value inside the vector')
    E.assumptions.add('std::nth_element rearranges its range')
    b = fresh('rearranged', AR)
    st.assume(sel(b, zi(q.path[-2])) == E.ctx.p['ref'])
    o = st.mem[p.root].copy()
    st.mem[p.root] = o
    o.cells[p.path[0]] = VecN(n.shape, n.len, Leaf(n.el.shape, b))
    return None


def c_assign(E, st, a, i):
    """vector::assign of a range of samples"""
    p, f, l = (E.norm(st, x) for x in a[:3])
    n = E.cell_node(st, p)
    src = E.cell_node(st, Ptr(f.root, f.path[:-2])).el.t
    off, ln = zi(f.path[-2]), zi(l.path[-2]) - zi(f.path[-2])
    E.oblige(st, z3.And(ln >= 0, off >= 0, zi(l.path[-2]) <= E.ctx.p['n'], z3.BoolVal(f.root == l.root)), 'assign: a range inside the samples')
    E.assumptions.add('std::vector::assign copies the range')
    b, k = fresh('assigned', AR), z3.Int('k!a')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ln), sel(b, k) == sel(src, off + k)), patterns=[sel(b, k)]))
    o = st.mem[p.root].copy()
    st.mem[p.root] = o
    o.cells[p.path[0]] = VecN(n.shape, ln, Leaf(n.el.shape, b))
    return None


CON_SLOPE = {r'^void std::vector<double.*>::assign<': c_assign, P_ + r'.*weightedMedian|weightedMedian<': c_wmedian, r'void std::nth_element<': c_nth}


def targets(thorough):
    out = []

    def add(name, fn, pre, post, **kw):
        kw.setdefault('timeout', 30000)
        kw.setdefault('frames', False)
        out.append(('phase', Target(name, fn, pre, post, **kw)))
    add('UnwrapAndFit', 'drv_unwrapfit', pre_fitone, post_unwrapfit, templates=[t_sums(s_fit)], contracts={r'^(fmod|std::fmod\(.*\))$': c_fmod}, nl=True, about='slope of the values unwrapped towards the given slope')
    add('SlopeModelCost', 'drv_cost', pre_fitone, post_cost, templates=[t_sums(s_cost)], contracts={r'^(fmod|std::fmod\(.*\))$': c_fmod}, nl=True, about='weighted mean of the distances')
    add('GetRange [no data]', 'drv_range', pre_range0, post_range0)
    for big in (True, False):
        for lim in (False, True):
            add('GetRange [%s samples%s]' % ('20 or more' if big else 'up to 19', ', limited' if lim else ''), 'drv_range_limit' if lim else 'drv_range', pre_range(big, lim), post_range(big, lim), templates=[t_range])
    add('FitSlope', 'drv_fit', pre_fit, post_fit, contracts=CON_FIT, templates=[t_fit])
    add('Unwrap', 'drv_unwrap', pre_unwrap, post_unwrap, templates=[t_unwrap])
    add('WeightedMedian', 'drv_wmedian', pre_wmedian, post_wmedian, contracts={r'void std::sort<': c_sortpairs}, templates=[t_wmedian])
    for w in (False, True):
        t = ', weighted' if w else ''
        add('SlidingFit' + t, 'drv_wsliding' if w else 'drv_sliding', pre_sl(w), post_sliding, contracts=CON_LINE, templates=[t_sliding])
        add('PieceWiseFit' + t, 'drv_wpiecewise' if w else 'drv_piecewise', pre_piecewise(w), post_piecewise, contracts=CON_LINE, templates=[t_piecewise])
        add('fitSlope' + t, 'drv_wslope' if w else 'drv_slope', pre_slope(w), post_slope(w), contracts=CON_SLOPE, templates=[t_sums(lambda c, w=w: slope_sums(c, w))], nl=True)
    add('SlidingFitWithBreak', 'drv_withbreak', pre_withbreak, post_withbreak, contracts=CON_BREAK)
    add('BreakPoint', 'drv_break', pre_break, post_break, templates=[t_break], nl=True)
    return out
