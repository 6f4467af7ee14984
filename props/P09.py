"""Expansion of ranges and multiplications in parset values (common/StringTools.cc, ParameterValue::expand)."""
from unit import Target
from specs import *

UNITS = {'strings': 'strings.cc', 'pvalue': 'pvalue.cc'}
NATIVE = 'P09.cc'
SEARCH_SECS = 10
BOUND = 'texts generated with their expansion (nested lists, ranges with prefixes and suffixes, multiplications of depth up to 3, quotes, blanks), the documented examples, random token strings up to 10 tokens'
ASSUMPTIONS = ['strings are shorter than 2^31-2 characters (the code uses 32-bit positions)',
               'proved: enclosure test, order of the two expansions, text without range or multiplication is untouched; the expansions themselves are bounded']
MAX = (1 << 31) - 3

MultLen, MultTxt, MultBad = z3.Function('MultLen', A, I, I), z3.Function('MultTxt', A, I, A), z3.Function('MultBad', A, I, B)
RangeLen, RangeTxt, RangeBad = z3.Function('RangeLen', A, I, I), z3.Function('RangeTxt', A, I, A), z3.Function('RangeBad', A, I, B)


def abstract(ln, txt, bad):
    """callee as a function of its text (length, text, or rejection); no length limit is assumed of the result"""
    def f(E, st, a, i):
        n = E.cell_node(st, a[1])
        arr, l = n.el.t, zi(n.len)
        out, s = fork_throw(E, st, bad(arr, l))
        if s is not None:
            r = ln(arr, l)
            s.assume(z3.And(r >= 0, r <= MAX))
            E.set_container(s, a[0], mkstr(r, txt(arr, l)))
            out.append(('ret', s, None))
        return out
    return f


def pre_s(c):
    return [c.obj('out', STR), c.obj('s', STR, maxlen=MAX)]


def enclosed(a, ln):
    S = LSkip(a, z3.IntVal(0), ln)
    E = RSkip(a, S, ln)
    return z3.And(S < E, sel(a, S) == 91, sel(a, E - 1) == 93)


def post_array(c, o):
    a, ln = c.p['s'].el.t, c.p['s'].len
    enc = enclosed(a, ln)
    ml, mt = MultLen(a, ln), MultTxt(a, ln)
    bad = z3.Or(MultBad(a, ln), RangeBad(mt, ml))
    if o.threw:
        return [('throws only for a list whose expansion is rejected', z3.And(enc, bad))]
    v, k = o.cell('out'), z3.Int('k!p')
    same = lambda l, t: z3.And(zi(v.len) == l, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.len)), sel(v.el.t, k) == sel(t, k))))
    return [('text not enclosed in brackets is unchanged', z3.Implies(z3.Not(enc), same(ln, a))),
            ('a list has its multiplications expanded, then its ranges', z3.Implies(enc, z3.And(z3.Not(bad), same(RangeLen(mt, ml), RangeTxt(mt, ml)))))]


def pre_free(ok):
    def f(c):
        r = pre_s(c)
        a, ln = c.p['s'].el.t, c.p['s'].len
        c.elem_fact('s', lambda k: ok(a, k, ln))
        return r
    return f


# position of a quote without partner, scanning from p
QBad = SpecFn('QBad', [A, I, I], B, lambda a, ln, p: z3.If(p + 1 >= ln, z3.BoolVal(False), z3.If(is_quote(sel(a, p)), z3.Or(
    FindChar(a, sel(a, p), p + 1, ln) == -1, QBad(a, ln, FindChar(a, sel(a, p), p + 1, ln) + 1)), QBad(a, ln, p + 1))))


def post_same(c, o):
    a, ln = c.p['s'].el.t, c.p['s'].len
    bad = QBad(a, ln, z3.IntVal(0))
    if o.threw:
        return [('throws only for an unbalanced quote', bad)]
    v, k = o.cell('out'), z3.Int('k!p')
    return [('accepts only balanced quotes', z3.Not(bad)), ('same length', zi(v.len) == ln),
            ('same text', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ln), sel(v.el.t, k) == sel(a, k))))]


def t_quote(lc, c):
    a, ln = c.p['s'].el.t, c.p['s'].len
    bad = QBad(a, ln, z3.IntVal(0))
    out = []
    for x in lc.lv:
        if lc.lv[x].kind in ('int', 'cell'):
            out.append(('T:quote(%s)' % x, lambda v, x=x: QBad(a, ln, zi(v.v(x))) == bad))
    return out


ExpLen, ExpTxt, ExpBad = z3.Function('ExpLen', A, I, I), z3.Function('ExpTxt', A, I, A), z3.Function('ExpBad', A, I, B)


def pre_v(c):
    return [c.obj('out', STR), c.obj('s', STR, maxlen=MAX)]


def post_expand(c, o):
    a, ln = c.p['s'].el.t, c.p['s'].len
    if o.threw:
        return [('throws only when the expansion is rejected', ExpBad(a, ln))]
    v, k, t = o.cell('out'), z3.Int('k!p'), ExpTxt(a, ln)
    S = LSkip(t, z3.IntVal(0), ExpLen(a, ln))
    E = RSkip(t, S, ExpLen(a, ln))
    return [('length of the trimmed expansion', zi(v.len) == E - S),
            ('text of the trimmed expansion', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.len)), sel(v.el.t, k) == sel(t, S + k))))]


def case(c, m):
    return 'any ' + qc(m.s(c.p['s']))


def targets(thorough):
    F = 'dp3::common::expand'
    both = {r'^dp3::common::expandMultString': abstract(MultLen, MultTxt, MultBad), r'^dp3::common::expandRangeString': abstract(RangeLen, RangeTxt, RangeBad)}
    T = [('strings', Target(F + 'ArrayString', 'drv_expandArray', pre_s, post_array, case=case, contracts=dict(only(SCANNERS, 'skipws'), **both))),
         ('strings', Target(F + 'MultString [no multiplication]', 'drv_expandMult', pre_free(lambda a, k, ln: sel(a, k) != 42), post_same, case=case, contracts=SCANNERS, templates=[t_quote])),
         ('strings', Target(F + 'RangeString [no range]', 'drv_expandRange', pre_free(lambda a, k, ln: z3.Or(k + 1 >= ln, sel(a, k) != 46, sel(a, k + 1) != 46)), post_same, case=case, contracts=SCANNERS, templates=[t_quote])),
         ('pvalue', Target('dp3::common::ParameterValue::expand', 'drv_expand', pre_v, post_expand, type_shapes={'dp3::common::ParameterValue': STR},
                           contracts=dict(only(SCANNERS, 'skipws'), **{r'^dp3::common::expandArrayString': abstract(ExpLen, ExpTxt, ExpBad)})))]
    return T
