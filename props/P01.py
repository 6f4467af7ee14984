"""Baseline numbering: common/baseline_indices.h."""
from unit import Target
from specs import *

UNITS = {'baseline': 'baseline.cc'}
NATIVE = 'P01.cc'
SEARCH_SECS = 6
BOUND = 'every pair and index for n<=64 antennas; every triangular-number boundary index up to 2^20 antennas; random antennas up to 2^24'
ASSUMPTIONS = ['double arithmetic in the index->baseline direction is treated as real arithmetic (rounding covered by the bounded runtime contracts, at every triangular boundary)',
               'at most 2^24 antennas']
MAXN = 1 << 24


def tri(n):
    return n * (n + 1) / 2


def spec_index(p, q, n, order):
    """number of baselines that precede (p, q), p <= q < n, in the documented order"""
    return z3.If(order == 1, p * n + q - tri(p), tri(q) + p)


def pre_n(c):
    a = c.u('n', 64)
    c.assume(c.p['n'] <= MAXN)
    return [a]


def post_n(c, o):
    n = c.p['n']
    return [('never throws', not o.threw), ('n(n+1)/2 baselines', 2 * zi(o.val.u) == n * (n + 1))] if not o.threw else [('never throws', False)]


def pre_index(order):
    def f(c):
        r = [c.u('a', 64), c.u('b', 64), c.u('n', 64), IV(32, u=order)]
        c.p['o'] = z3.IntVal(order)
        c.assume(z3.And(c.p['a'] < c.p['n'], c.p['b'] < c.p['n'], c.p['n'] <= MAXN))
        return r
    return f


def post_index(c, o):
    if o.threw:
        return [('never throws', False)]
    a, b, n, k = c.p['a'], c.p['b'], c.p['n'], c.p['o']
    p, q, r = z3.If(a < b, a, b), z3.If(a < b, b, a), zi(o.val.u)
    return [('documented position, whichever antenna comes first', r == spec_index(p, q, n, k)),
            ('index below the number of baselines', 2 * r < n * (n + 1))]


def pre_bl(order):
    def f(c):
        r = [c.u('i', 64), c.u('n', 64), IV(32, u=order), c.out('p'), c.out('q')]
        c.p['o'] = z3.IntVal(order)
        n = c.p['n']
        c.assume(z3.And(n <= MAXN, 2 * c.p['i'] < n * (n + 1)))
        return r
    return f


def post_bl(c, o):
    if o.threw:
        return [('never throws', False)]
    i, n, k = c.p['i'], c.p['n'], c.p['o']
    p, q = zi(o.cell('p').u), zi(o.cell('q').u)
    return [('antenna1 <= antenna2', p <= q), ('antenna2 < n_antennas', q < n), ('index of the returned baseline is the given index', spec_index(p, q, n, k) == i)]


def pre_list(order):
    def f(c):
        from stdmodels import shape_of
        r = [c.out('out'), c.u('a', 64), c.u('n', 64), IV(32, u=order)]
        c.p['o'] = z3.IntVal(order)
        c.assume(z3.And(c.p['a'] < c.p['n'], c.p['n'] <= MAXN))
        E = c.E
        v = c.obj('out', shape_of(E, 'std::vector<unsigned long>'))
        return [v] + r[1:]
    return f


def list_spec(c, k):
    a, n, o = c.p['a'], c.p['n'], c.p['o']
    p, q = z3.If(a < k, a, k), z3.If(a < k, k, a)
    return spec_index(p, q, n, o)


def post_list(c, o):
    if o.threw:
        return [('never throws', False)]
    v = o.cell('out')
    k = z3.Int('k!p')
    return [('one entry per antenna', zi(v.len) == c.p['n']),
            ('entry k is the baseline with antenna k', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.p['n']), z3.Select(v.el.t, k) == list_spec(c, k))))]


def t_list(lc, c):
    out = []
    for ar in lc.arrs:
        for n in lc.lv:
            def f(v, ar=ar, n=n):
                k = z3.Int('k!t')
                return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(n))), z3.Select(v.arr(ar), k) == list_spec(c, k)))
            out.append(('T:list(%s,%s)' % (ar, n), f))
    return out


def case(t, names):
    return lambda c, m: t + ''.join(' %d' % m.i(c.p[n]) for n in names)


def targets(thorough):
    ts = [Target('ComputeNBaselines', 'drv_nbl', pre_n, post_n, case=case('nbl', ['n']), about='== n(n+1)/2')]
    for o, nm in ((0, 'column-major'), (1, 'row-major')):
        ts.append(Target('ComputeBaselineIndex ' + nm, 'drv_index', pre_index(o), post_index, case=case('index', ['a', 'b', 'n', 'o']),
                         about='documented position; symmetric; below the baseline count'))
        ts.append(Target('ComputeBaseline ' + nm, 'drv_baseline', pre_bl(o), post_bl, case=case('baseline', ['i', 'n', 'o']), timeout=60000,
                         about='ordered pair whose index is the argument'))
        ts.append(Target('ComputeBaselineList ' + nm, 'drv_list', pre_list(o), post_list, templates=[t_list], case=case('list', ['a', 'n', 'o']),
                         about='entry k is the baseline index of (antenna, k), for all k'))
    return [('baseline', t) for t in ts]
