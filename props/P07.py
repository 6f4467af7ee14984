"""Scanners: lskipws, rskipws, skipQuoted, skipBalanced (common/StringTools.cc)."""
from unit import Target
from specs import *

UNITS = {'strings': 'strings.cc'}
NATIVE = 'P07.cc'
SEARCH_SECS = 8
BOUND = 'all strings up to length 6 over a 6-character alphabet with every start/end, plus random strings'
ASSUMPTIONS = ['strings are shorter than 2^31-2 characters (the interface uses 32-bit positions)']
MAX = (1 << 31) - 3


def pre3(c):
    s = c.obj('s', STR, maxlen=MAX)
    a, b = c.u('st', 32), c.u('end', 32)
    c.assume(c.p['end'] <= c.p['s'].len)
    return [s, a, b]


def pre_nonempty(c):
    a = pre3(c)
    c.assume(c.p['st'] < c.p['s'].len)
    return a


def skip_post(f):
    def post(c, o):
        if o.threw:
            return [('never throws', False)]
        a = c.p['s'].el.t
        return [('result equals the specified position', zi(o.val.u) == f(a, c.p['st'], c.p['end']))]
    return post


def t_l(lc, c):
    a, st, end = c.p['s'].el.t, c.p['st'], c.p['end']
    return [('T:L(%s)' % n, (lambda n: lambda v: LSkip(a, st, end) == LSkip(a, zi(v.v(n)), end))(n)) for n in lc.lv]


def t_r(lc, c):
    a, st, end = c.p['s'].el.t, c.p['st'], c.p['end']
    return [('T:R(%s)' % n, (lambda n: lambda v: RSkip(a, st, end) == RSkip(a, st, zi(v.v(n))))(n)) for n in lc.lv]


def pre_q(c):
    s = c.obj('s', STR, maxlen=MAX)
    a = c.u('st', 32)
    c.assume(c.p['st'] < c.p['s'].len)
    return [s, a]


def fq(c):
    a, st = c.p['s'].el.t, c.p['st']
    return FindChar(a, sel(a, st), st + 1, c.p['s'].len)


def post_q(c, o):
    if o.threw:
        return [('throws only without a closing quote', fq(c) == -1)]
    return [('returns only with a closing quote', fq(c) != -1), ('position after the closing quote', zi(o.val.u) == fq(c) + 1)]


def t_q(lc, c):
    a, st, ln = c.p['s'].el.t, c.p['st'], c.p['s'].len
    return [('T:Q(%s)' % n, (lambda n: lambda v: FindChar(a, sel(a, st), st + 1, ln) == FindChar(a, sel(a, st), zi(v.v(n)), ln))(n)) for n in lc.lv]


def pre_b(c):
    s = c.obj('s', STR, maxlen=MAX)
    a, b, e = c.u('st', 32), c.u('end', 32), c.s('ec', 8)
    c.assume(z3.And(c.p['end'] <= c.p['s'].len, c.p['st'] < c.p['s'].len))
    return [s, a, b, e]


def bal(c, p, n):
    a, st = c.p['s'].el.t, c.p['st']
    return Bal(a, c.p['s'].len, sel(a, st), c.p['ec'], c.p['end'], p, n)


def post_b(c, o):
    f = bal(c, c.p['st'] + 1, z3.IntVal(1))
    if o.threw:
        return [('throws only when unbalanced', f == -1)]
    return [('position after the balancing delimiter', z3.And(f != -1, zi(o.val.u) == f))]


def t_b(lc, c):
    out = []
    f0 = bal(c, c.p['st'] + 1, z3.IntVal(1))
    for x in lc.lv:
        for y in lc.lv:
            if x != y:
                for d in (0, 1):
                    out.append(('T:B(%s+%d,%s)' % (x, d, y), (lambda x, y, d: lambda v: f0 == bal(c, zi(v.v(x)) + d, zi(v.v(y))))(x, y, d)))
                    out.append(('T:B(%s,%s+%d)' % (x, y, d), (lambda x, y, d: lambda v: f0 == bal(c, zi(v.v(x)), zi(v.v(y)) + d))(x, y, d)))
    return out


def case(t, names):
    def f(c, m):
        return t + ' ' + qc(m.s(c.p['s'])) + ''.join(' %d' % m.i(c.p[n]) for n in names)
    return f


def targets(thorough):
    C = SCANNERS
    return [
        ('strings', Target('lskipws', 'drv_lskipws', pre3, skip_post(LSkip), templates=[t_l], case=case('lskipws', ['st', 'end']),
                           covers=[('skips', lambda c, o: zi(o.val.u) > c.p['st'])], about='result == LSkip(s, st, end), in bounds')),
        ('strings', Target('rskipws', 'drv_rskipws', pre3, skip_post(RSkip), templates=[t_r], case=case('rskipws', ['st', 'end']),
                           covers=[('skips', lambda c, o: zi(o.val.u) < c.p['end'])], about='result == RSkip(s, st, end), in bounds')),
        ('strings', Target('skipQuoted', 'drv_skipQuoted', pre_q, post_q, templates=[t_q], case=case('skipQuoted', ['st']),
                           covers=[('throws', lambda c, o: o.threw), ('returns', lambda c, o: not o.threw)],
                           about='result == first equal character after st, plus one; throws iff there is none')),
        ('strings', Target('skipBalanced', 'drv_skipBalanced', pre_b, post_b, contracts=only(C, 'skipQuoted'), templates=[t_b],
                           case=case('skipBalanced', ['st', 'end', 'ec']),
                           covers=[('throws', lambda c, o: o.threw), ('returns', lambda c, o: not o.threw)],
                           about='result == Bal(...): position after the matching end delimiter; throws iff unbalanced')),
    ]
