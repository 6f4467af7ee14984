"""Tokens, station patterns and values per station (common/StringTools, common/ValuePerStationParsing.h)."""
from unit import Target
from specs import *
from stdmodels import FindSet, FindNotSet

UNITS = {'strings': 'strings.cc'}
NATIVE = 'P10.cc'
SEARCH_SECS = 10
BOUND = 'tokens: random texts up to 40 characters over all byte values; patterns: every character, random patterns and names up to 6 characters against an independent wildcard matcher; values per station: up to 5 stations, 3 items, 3 patterns each'
ASSUMPTIONS = ['std::string::find_first_of/find_first_not_of as in the C++ standard (membership in the delimiter set is uninterpreted in the proof)']
VS = SVec(STR)


def pre(c):
    return [c.obj('out', VS), c.obj('s', STR), c.obj('d', STR)]


def F(fn, c, p):
    s, d = c.p['s'], c.p['d']
    return fn(s.el.t, s.len, d.el.t, d.len, p)


TS, TE = (lambda c, p: F(FindNotSet, c, p)), (lambda c, p: F(FindSet, c, p + 1))
S6 = [A, I, A, I, I]
# tokens from position p on; start of token k
Count = SpecFn('TokCount', S6, I, lambda a, l, d, n, p: z3.If(FindNotSet(a, l, d, n, p) >= l, z3.IntVal(0), 1 + Count(a, l, d, n, FindSet(a, l, d, n, FindNotSet(a, l, d, n, p) + 1))))
Start = SpecFn('TokStart', S6, I, lambda a, l, d, n, k: z3.If(k <= 0, FindNotSet(a, l, d, n, z3.IntVal(0)), FindNotSet(a, l, d, n, FindSet(a, l, d, n, Start(a, l, d, n, k - 1) + 1))))


def post(c, o):
    if o.threw:
        return [('never throws', False)]
    n, a = o.cell('out'), c.p['s'].el.t
    k, j = z3.Int('k!p'), z3.Int('j!p')
    S = F(Start, c, k)
    E = TE(c, S)
    return [('as many tokens as runs of characters that are no delimiters', zi(n.len) == F(Count, c, z3.IntVal(0))),
            ('token k has the length of run k', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n.len)), sel(n.el.len, k) == E - S))),
            ('token k is the text of run k', z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < zi(n.len), j >= 0, j < E - S), sel(sel(n.el.el.t, k), j) == sel(a, S + j))))]


def t_tok(lc, c):
    a = c.p['s'].el.t
    out = []
    ints = [x for x in lc.lv if lc.lv[x].kind in ('int', 'cell')]
    lens = [x for x in lc.lv if lc.lv[x].kind == 'len']
    k, j = z3.Int('k!t'), z3.Int('j!t')
    S = F(Start, c, k)
    for i in ints:
        for n in lens:
            out.append(('T:count(%s,%s)' % (n, i), lambda v, i=i, n=n: F(Count, c, zi(v.v(i))) + zi(v.v(n)) == F(Count, c, z3.IntVal(0))))
            out.append(('T:start(%s,%s)' % (n, i), lambda v, i=i, n=n: F(Start, c, zi(v.v(n))) == TS(c, zi(v.v(i)))))
    for n in lens:
        for ar in lc.arrs:
            def text(v, ar=ar, n=n):
                x = v.arr(ar)
                if z3.is_int(z3.Select(x, k)):
                    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(n))), z3.Select(x, k) == TE(c, S) - S))
                return z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < zi(v.v(n)), j >= 0, j < TE(c, S) - S), z3.Select(z3.Select(x, k), j) == sel(a, S + j)))
            out.append(('T:text(%s,%s)' % (ar, n), text))
    return out


def case(c, m):
    return 'tokenize %s %s' % (qc(m.s(c.p['s'])), qc(m.s(c.p['d'])))


def targets(thorough):
    return [('strings', Target('dp3::common::stringtools::tokenize', 'drv_tokenize', pre, post, templates=[t_tok], case=case, frames=False))]
