"""Strict conversion of strings to numbers (common/StringTools.cc)."""
from unit import Target
from specs import *

UNITS = {'strings': 'strings.cc'}
NATIVE = 'P06.cc'
SEARCH_SECS = 8
BOUND = 'all strings up to length 4 over a 12-character alphabet, boundary values with every blank/sign/base variation, and random strings, against an independent parser'
ASSUMPTIONS = ['strings are shorter than 2^31-2 characters (the code uses 32-bit positions)',
               'the grammar and value of a number are those of strtol/strtoul/strtof/strtod (assumed contract, compared with an independent parser at run time)']
MAX = (1 << 31) - 3


def pre(c):
    s = c.obj('s', STR, maxlen=MAX)
    a, ln = c.p['s'].el.t, c.p['s'].len
    S, E = z3.Int('first'), z3.Int('last')   # the significant part
    k = z3.Int('k!p')
    c.p['S'], c.p['E'] = S, E
    c.assume(z3.And(S >= 0, S <= ln, z3.Implies(S < ln, z3.Not(is_space(sel(a, S))))))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < S), is_space(sel(a, k)))))
    c.assume(z3.And(E >= 0, E <= ln, z3.Implies(E > 0, z3.Not(is_space(sel(a, E - 1))))))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= E, k < ln), is_space(sel(a, k)))))
    return [s]


def parse(c, kind):
    """(valid, value) of the whole significant part"""
    a, ln, S, E = c.p['s'].el.t, c.p['s'].len, c.p['S'], c.p['E']
    if kind in 'fd':
        b = z3.IntVal(10)
    else:
        b = z3.If(z3.And(E > S + 2, sel(a, S) == 48, z3.Or(sel(a, S + 1) == 120, sel(a, S + 1) == 88)), z3.IntVal(16), z3.IntVal(10))
    pl, rg, v = (f[kind](a, ln, S, b) for f in (PLen, PRng, PVal))
    ok = z3.And(S < E, S + pl == E, z3.Not(rg))
    if kind == 'ul':
        ok = z3.And(ok, sel(a, S) != 45)
    return ok, v


def post(kind, lo=None, hi=None, sg=True):
    def f(c, o):
        ok, v = parse(c, kind)
        if lo is not None:
            ok = z3.And(ok, v >= lo, v <= hi)
        if o.threw:
            return [('throws only for what is not a number in range', z3.Not(ok))]
        r = o.val.r if kind in 'fd' else zi(o.val.s if sg else o.val.u)
        return [('returns only for a number in range', ok), ('returns the value of the whole string', r == v)]
    return f


def post_bool(c, o):
    a = c.p['s'].el.t
    ch = lambda t: z3.And(c.p['s'].len > 0, z3.Or(*[sel(a, 0) == ord(x) for x in t]))
    if o.threw:
        return [('throws only without a boolean initial', z3.Not(z3.Or(ch('tT1yY'), ch('fF0nN'))))]
    return [('true and false initials', z3.If(o.val.b, ch('tT1yY'), ch('fF0nN')))]


def case(t):
    return lambda c, m: t + ' ' + qc(m.s(c.p['s']))


def targets(thorough):
    C = dict(only(SCANNERS, 'skipws'), **STRTO)
    out = []
    for nm, kind, lo, hi, sg in [('strToLong', 'l', None, None, True), ('strToInt', 'l', -2**31, 2**31 - 1, True), ('strToInt32', 'l', -2**31, 2**31 - 1, True),
                                 ('strToInt16', 'l', -2**15, 2**15 - 1, True), ('strToInt64', 'l', None, None, True),
                                 ('strToUlong', 'ul', None, None, False), ('strToUint', 'ul', 0, 2**32 - 1, False), ('strToUint32', 'ul', 0, 2**32 - 1, False),
                                 ('strToUint16', 'ul', 0, 2**16 - 1, False), ('strToUint64', 'ul', None, None, False),
                                 ('strToFloat', 'f', None, None, True), ('strToDouble', 'd', None, None, True)]:
        out.append(('strings', Target(nm, 'drv_' + nm, pre, post(kind, lo, hi, sg), contracts=C, case=case(nm), timeout=20000,
                                      covers=[('throws', lambda c, o: o.threw), ('returns', lambda c, o: not o.threw)],
                                      about='the value of the whole non-blank part of the string, or an exception')))
    out.append(('strings', Target('strToBool', 'drv_strToBool', pre, post_bool, case=case('strToBool'),
                                  covers=[('throws', lambda c, o: o.threw), ('returns', lambda c, o: not o.threw)], about='decided by the first character')))
    return out
