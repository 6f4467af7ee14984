"""Timers (common/Timer.h)."""
from unit import Target
from specs import *
from engine import Obj

UNITS = {'timer': 'timer.cc'}
NATIVE = 'P15.cc'
SEARCH_SECS = 6
BOUND = 'random sequences of up to 40 operations on three timers with two clock resolutions; printing and integer/atomic accumulators only here'
ASSUMPTIONS = ['clock readings and totals below 2^61 ticks', 'conversions to floating-point seconds treated as real arithmetic']
LIM = 1 << 61
NOW = z3.Const('NOW', z3.ArraySort(I, I))
NS = 1000000000


def timer(c, name):
    """a timer in any state"""
    n, d, s = (z3.Int('%s_%s' % (name, x)) for x in ('count', 'dur', 'start'))
    c.assume(z3.And(n >= 0, n < 1 << 62, d > -LIM, d < LIM, s > -LIM, s < LIM))
    c.obj(name + '_name', STR, maxlen=1 << 20)
    c.p[name] = (n, d, s)
    c.st0.mem[name] = Obj(name, {0: c.p[name + '_name'], 32: IV(64, u=n), 40: IV(64, s=d), 48: IV(64, s=s)}, None, 'mem')
    return Ptr(name)


def ghost(c):
    c.st0.mem['clock'] = Obj('clock', {0: IV.c(64, 0)}, None, 'mem')


def c_clock(E, st, a, i):
    """the k-th reading of the clock"""
    k = st.mem['clock'].cells[0].const()
    o = st.mem['clock'].copy()
    o.cells[0] = IV.c(64, k + 1)
    st.mem['clock'] = o
    t = z3.Select(NOW, k)
    st.assume(z3.And(t > -LIM, t < LIM))
    return IV(64, s=t)


def c_body(E, st, a, i):
    s = st.fork()
    s.assume(z3.Bool('body_throws'))
    st.assume(z3.Not(z3.Bool('body_throws')))
    return [('throw', s, '_ZTISt13runtime_error'), ('ret', st, None)]


CON = {r'^read_clock$': c_clock, r'^body$': c_body}


def readings(o, n):
    return o.st.mem['clock'].cells[0].const() == n


def fields(o, t):
    m = o.st.mem[t].cells
    return zi(m[32].u), zi(m[40].s), zi(m[48].s)


def expect(name, f, reads, throws=None):
    """the timer afterwards is f(before)"""
    def post(c, o):
        r = []
        if o.threw:
            if throws is None:
                return [('never throws', False)]
            r.append(('throws only when the timed code does', z3.Bool('body_throws')))
        w = f(c)
        g = fields(o, name)
        for k, nm in enumerate(('count', 'total', 'start')):
            if w[k] is not None:
                r.append((nm, g[k] == w[k]))
        r.append(('clock readings', readings(o, reads)))
        return r
    return post


def pre1(c):
    ghost(c)
    return [timer(c, 't')]


def pre2(c):
    ghost(c)
    return [timer(c, 't'), timer(c, 'u')]


def pre_same(c):
    ghost(c)
    p = timer(c, 't')
    return [p, p]


def unchanged(c, o, t='t'):
    g = fields(o, t)
    return [(nm + ' unchanged', g[k] == c.p[t][k]) for k, nm in enumerate(('count', 'total', 'start'))]


def value(f):
    def post(c, o):
        if o.threw:
            return [('never throws', False)]
        return [('value', f(c, o.val))] + unchanged(c, o) + [('clock readings', readings(o, 0))]
    return post


def secs(x):
    return z3.ToReal(x) / NS


def pre_avg(c):
    a = pre1(c)
    c.assume(c.p['t'][0] > 0)
    return a


def pre_acc(c):
    ghost(c)
    c.p['a0'] = z3.Real('a0')
    c.st0.mem['acc'] = Obj('acc', {0: FV(c.p['a0'], 8)}, None, 'mem')
    return [Ptr('acc')]


def post_acc(c, o):
    r = [('throws only when the timed code does', z3.Bool('body_throws'))] if o.threw else []
    return r + [('microseconds added', o.st.mem['acc'].cells[0].r == c.p['a0'] + z3.ToReal(NOW[1] - NOW[0]) / 1000), ('clock readings', readings(o, 2))]


def pre_ctor(c):
    ghost(c)
    for n in 'ne':
        c.st0.mem[n] = Obj(n, {}, None, 'mem')
    return [Ptr('n'), Ptr('e'), c.obj('s', STR, maxlen=1 << 20)]


def post_ctor(c, o):
    if o.threw:
        return [('never throws', False)]
    return [('count 0', zi(o.st.mem['n'].cells[0].s) == 0), ('total 0', o.st.mem['e'].cells[0].r == 0)]


def targets(thorough):
    T = lambda n, d, p, q, about: ('timer', Target(n, d, p, q, contracts=CON, timeout=20000, budget=100, cleanup=True, about=about))
    dur = lambda c: c.p['t'][1]
    scope = expect('t', lambda c: (c.p['t'][0] + 1, c.p['t'][1] + NOW[1] - NOW[0], None), 2, True)
    return [T('construction', 'drv_ctor', pre_ctor, post_ctor, 'a new timer is at zero'),
            T('start', 'drv_start', pre1, expect('t', lambda c: (c.p['t'][0], dur(c), NOW[0]), 1), 'start remembers the clock and nothing else'),
            T('stop', 'drv_stop', pre1, expect('t', lambda c: (c.p['t'][0] + 1, dur(c) + NOW[0] - c.p['t'][2], None), 1), 'stop adds the time since start and counts'),
            T('reset', 'drv_reset', pre1, expect('t', lambda c: (z3.IntVal(0), z3.IntVal(0), None), 0), 'reset zeroes total and count'),
            T('add', 'drv_add', pre2, expect('t', lambda c: (c.p['t'][0] + c.p['u'][0], dur(c) + c.p['u'][1], c.p['t'][2]), 0), '+= adds total and count'),
            T('add to itself', 'drv_add', pre_same, expect('t', lambda c: (2 * c.p['t'][0], 2 * dur(c), c.p['t'][2]), 0), 't += t doubles'),
            T('elapsed', 'drv_elapsed', pre1, value(lambda c, v: v.r == secs(dur(c))), 'elapsed seconds'),
            T('average', 'drv_average', pre_avg, value(lambda c, v: v.r * z3.ToReal(c.p['t'][0]) == secs(dur(c))), 'average = elapsed / count'),
            T('count', 'drv_count', pre1, value(lambda c, v: zi(v.u) == c.p['t'][0]), 'count'),
            T('scope', 'drv_scope', pre1, expect('t', lambda c: (c.p['t'][0] + 1, dur(c) + NOW[1] - NOW[0], None), 2), 'a scope is timed once'),
            T('scope left by exception', 'drv_scope_throw', pre1, scope, 'a scope left by an exception is timed once'),
            T('accumulator', 'drv_acc', pre_acc, post_acc, 'the lifetime of the accumulator is added in microseconds')]
