"""Parameter values: trimming, lists, records, quotes, typed access (common/ParameterValue.{h,cc})."""
from unit import Target
from specs import *
from stdmodels import shape_of

UNITS = {'pvalue': 'pvalue.cc', 'pvsplit': 'pvsplit.cc'}
NATIVE = 'P08.cc'
SEARCH_SECS = 8
BOUND = 'all strings up to length 3 over a 12-character alphabet (bare, in [] and in {}), random token strings up to 40 tokens, boundary numbers, times with units up to 20000 characters, against an independent parser'
ASSUMPTIONS = ['strings are shorter than 2^31-2 characters (the code uses 32-bit positions)']
MAX = (1 << 31) - 3


def pre_s(c):
    s = c.obj('s', STR, maxlen=MAX)
    return [c.obj('out', STR), s]


def post_trim(c, o):
    if o.threw:
        return [('never throws', False)]
    a, ln = c.p['s'].el.t, c.p['s'].len
    v = o.cell('out')
    S = LSkip(a, z3.IntVal(0), ln)
    E = RSkip(a, S, ln)
    k = z3.Int('k!p')
    return [('length without surrounding blanks', zi(v.len) == E - S),
            ('text without surrounding blanks', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.len)), sel(v.el.t, k) == sel(a, S + k))))]


def post_same(c, o):
    if o.threw:
        return [('never throws', False)]
    a, ln = c.p['s'].el.t, c.p['s'].len
    v = o.cell('out')
    k = z3.Int('k!p')
    return [('same length', zi(v.len) == ln), ('same text', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ln), sel(v.el.t, k) == sel(a, k))))]


# ---- splitting: scanning state (position, open parentheses, brackets, braces)
def step(a, p, n1, n2, n3):
    """(counts after the character, error)"""
    ch = sel(a, p)
    m1 = n1 + z3.If(ch == 40, 1, 0) - z3.If(ch == 41, 1, 0)
    m2 = n2 + z3.If(ch == 91, 1, 0) - z3.If(ch == 93, 1, 0)
    m3 = n3 + z3.If(ch == 123, 1, 0) - z3.If(ch == 125, 1, 0)
    return m1, m2, m3, z3.Or(m1 < 0, m2 < 0, m3 < 0, z3.And(z3.Or(ch == 91, ch == 123), n1 != 0))


def after_quote(a, ln, p):
    return FindChar(a, sel(a, p), p + 1, ln)


def sep_body(a, ln, e, p, n1, n2, n3):
    m1, m2, m3, err = step(a, p, n1, n2, n3)
    q = after_quote(a, ln, p)
    return z3.If(p >= e, e, z3.If(is_quote(sel(a, p)), z3.If(q == -1, e, Sep(a, ln, e, q + 1, n1, n2, n3)),
                 z3.If(z3.And(sel(a, p) == 44, n1 + n2 + n3 == 0), p, Sep(a, ln, e, p + 1, m1, m2, m3))))


def bad_body(a, ln, e, p, n1, n2, n3):
    m1, m2, m3, err = step(a, p, n1, n2, n3)
    q = after_quote(a, ln, p)
    return z3.If(p >= e, z3.Or(n1 != 0, n2 != 0, n3 != 0), z3.If(is_quote(sel(a, p)), z3.Or(q == -1, Bad(a, ln, e, q + 1, n1, n2, n3)),
                 z3.Or(err, Bad(a, ln, e, p + 1, m1, m2, m3))))


def cnt_body(a, ln, e, p, n1, n2, n3):
    m1, m2, m3, err = step(a, p, n1, n2, n3)
    q = after_quote(a, ln, p)
    return z3.If(p >= e, z3.IntVal(1), z3.If(is_quote(sel(a, p)), Cnt(a, ln, e, q + 1, n1, n2, n3),
                 Cnt(a, ln, e, p + 1, m1, m2, m3) + z3.If(z3.And(sel(a, p) == 44, n1 + n2 + n3 == 0), 1, 0)))


S7 = [A, I, I, I, I, I, I]
Sep = SpecFn('Sep', S7, I, sep_body)    # end of the element that is being scanned
Bad = SpecFn('Bad', S7, B, bad_body)    # unbalanced quotes or brackets
Cnt = SpecFn('Cnt', S7, I, cnt_body)    # elements from here on


def trim_facts(a, st, end):
    k = z3.Int('k!f')
    S = LSkip(a, st, end)
    E = RSkip(a, S, end)
    return S, E, z3.And(S >= st, S <= end, E >= S, E <= end, z3.Implies(S < end, z3.Not(is_space(sel(a, S)))), z3.Implies(E > S, z3.Not(is_space(sel(a, E - 1)))),
                        z3.ForAll([k], z3.Implies(z3.And(k >= st, k < S), is_space(sel(a, k)))), z3.ForAll([k], z3.Implies(z3.And(k >= E, k < end), is_space(sel(a, k)))))


def pre_substr(c):
    r = [c.obj('out', STR), c.obj('s', STR, maxlen=MAX), c.s('st', 32), c.s('end', 32)]
    p = c.p
    c.assume(z3.And(p['st'] >= 0, p['st'] <= p['end'], p['end'] <= p['s'].len))
    # S, E: the (unique) ends of the part without surrounding blanks, as in trim_facts
    t, st, n, k = p['s'].el.t, p['st'], p['end'] - p['st'], z3.Int('k!f')
    S, E = p['S'], p['E'] = z3.Ints('S E')
    sp = lambda k: is_space(sel(t, k + st))
    c.assume(z3.And(S >= 0, S <= n, E >= S, E <= n, z3.Implies(S < n, z3.Not(sp(S))), z3.Implies(E > S, z3.Not(sp(E - 1)))))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < S), sp(k))))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= E, k < n), sp(k))))
    return r


def post_substr(c, o):
    if o.threw:
        return [('never throws', False)]
    v, k, a, S, E = o.cell('out'), z3.Int('k!p'), c.p['s'].el.t, c.p['S'], c.p['E']
    return [('length of the trimmed part', zi(v.len) == E - S), ('text of the trimmed part', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < E - S), sel(v.el.t, k) == sel(a, c.p['st'] + S + k))))]


def c_substr(E, st, a, i):
    """contract of ParameterValue::substr (proved): the trimmed part"""
    out, n = a[0], E.cell_node(st, a[1])
    b, e = zi(a[2].s), zi(a[3].s)
    E.oblige(st, z3.And(b >= 0, b <= e, e <= zi(n.len)), 'precondition of substr')
    arr = n.el.t
    S, En, f = trim_facts(arr, b, e)
    st.assume(f)
    r = fresh('sub', A)
    k = z3.Int('k!f')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < En - S), sel(r, k) == sel(arr, S + k))))
    E.set_container(st, out, mkstr(En - S, r))
    return None


Start = SpecFn('Start', [A, I, I, I, I], I, lambda a, ln, e, s, k: z3.If(k <= 0, s, Sep(a, ln, e, Start(a, ln, e, s, k - 1), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)) + 1))
VS = SVec(STR)
PV = {'dp3::common::ParameterValue': STR}
Z = z3.IntVal(0)


def pre_split(c):
    r = [c.obj('out', VS), c.obj('s', STR, maxlen=MAX), c.u('st', 32), c.u('last', 32)]
    p = c.p
    c.assume(z3.And(p['st'] <= p['last'], p['last'] <= p['s'].len))
    p['b'] = LSkip(p['s'].el.t, p['st'], p['last'])
    return r


def elem_ok(c, n, k):
    """element k of n is the trimmed text between separators k-1 and k"""
    a, ln, e, b = c.p['s'].el.t, c.p['s'].len, c.p['last'], c.p['b']
    s = Start(a, ln, e, b, k)
    q = Sep(a, ln, e, s, Z, Z, Z)
    S = LSkip(a, s, q)
    E = RSkip(a, S, q)
    return S, E


def post_split(c, o):
    a, ln, e, b = c.p['s'].el.t, c.p['s'].len, c.p['last'], c.p['b']
    bad = Bad(a, ln, e, b, Z, Z, Z)
    if o.threw:
        return [('throws only when quotes or brackets do not balance', z3.And(b < e, bad))]
    n = o.cell('out')
    k, j = z3.Int('k!p'), z3.Int('j!p')
    S, E = elem_ok(c, None, k)
    return [('accepts only balanced text', z3.Or(b == e, z3.Not(bad))),
            ('one element more than commas outside quotes and brackets, none for blank text', zi(n.len) == z3.If(b == e, 0, Cnt(a, ln, e, b, Z, Z, Z))),
            ('element k has the length of the trimmed text between commas k-1 and k', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n.len)), sel(n.el.len, k) == E - S))),
            ('element k is the trimmed text between commas k-1 and k', z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < zi(n.len), j >= 0, j < E - S), sel(sel(n.el.el.t, k), j) == sel(a, S + j))))]


def t_split(lc, c):
    import itertools
    a, ln, e, b = c.p['s'].el.t, c.p['s'].len, c.p['last'], c.p['b']
    ints = [x for x in lc.lv if lc.lv[x].kind in ('int', 'cell')]
    lens = [x for x in lc.lv if lc.lv[x].kind == 'len']
    ent = {x: lc.lv[x].get(lc.entry.st, lc.entry.regs) for x in ints}
    zero = [x for x in ints if z3.is_int_value(zi(ent[x])) and zi(ent[x]).as_long() == 0]
    pos = [x for x in ints if x not in zero]
    out = []
    for i in pos:
        for tr in [zero] if len(zero) == 3 else itertools.permutations(zero, 3):
            A7 = lambda v, i=i, tr=tr: (a, ln, e, zi(v.v(i))) + tuple(zi(v.v(t)) for t in tr)
            out.append(('T:bad(%s,%s)' % (i, tr), lambda v, A7=A7: Bad(*A7(v)) == Bad(a, ln, e, b, Z, Z, Z)))
            out.append(('T:sum(%s,%s)' % (i, tr), lambda v, A7=A7: sum(A7(v)[4:]) <= A7(v)[3]))
            for j in pos:
                out.append(('T:sep(%s,%s,%s)' % (i, j, tr), lambda v, A7=A7, j=j: Sep(*A7(v)) == Sep(a, ln, e, zi(v.v(j)), Z, Z, Z)))
            for n in lens:
                out.append(('T:cnt(%s,%s,%s)' % (n, i, tr), lambda v, A7=A7, n=n: Cnt(*A7(v)) + zi(v.v(n)) == Cnt(a, ln, e, b, Z, Z, Z)))
    for n in lens:
        for j in pos:
            out.append(('T:start(%s,%s)' % (n, j), lambda v, n=n, j=j: Start(a, ln, e, b, zi(v.v(n))) == zi(v.v(j))))
        for ar in lc.arrs:
            k, j = z3.Int('k!t'), z3.Int('j!t')

            def text(v, ar=ar, n=n):
                x = v.arr(ar)
                S, E = elem_ok(c, None, k)
                if z3.is_int(z3.Select(x, k)):
                    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(n))), z3.Select(x, k) == E - S))
                return z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < zi(v.v(n)), j >= 0, j < E - S), z3.Select(z3.Select(x, k), j) == sel(a, S + j)))
            out.append(('T:text(%s,%s)' % (ar, n), text))
    return out


# ---- typed access: the strict conversions (P06) as callee contracts
TY = {'Bool': (0, 1, 1, 'u'), 'Int': (-2**31, 2**31 - 1, 32, 's'), 'Uint': (0, 2**32 - 1, 32, 'u'), 'Int16': (-2**15, 2**15 - 1, 16, 's'), 'Uint16': (0, 2**16 - 1, 16, 'u'),
      'Int32': (-2**31, 2**31 - 1, 32, 's'), 'Uint32': (0, 2**32 - 1, 32, 'u'), 'Int64': (-2**63, 2**63 - 1, 64, 's'), 'Uint64': (0, 2**64 - 1, 64, 'u'),
      'Long': (-2**63, 2**63 - 1, 64, 's'), 'Ulong': (0, 2**64 - 1, 64, 'u'), 'Float': (None, None, 4, 'f'), 'Double': (None, None, 8, 'f')}
Ok = {t: z3.Function('Ok' + t, A, I, B) for t in TY}       # the text is a value of the type
Val = {t: z3.Function('Val' + t, A, I, R if TY[t][3] == 'f' else I) for t in TY}


def conv(t):
    lo, hi, w, k = TY[t]

    def f(E, st, a, i):
        n = E.cell_node(st, a[0])
        arr, ln = n.el.t, zi(n.len)
        out, s = fork_throw(E, st, z3.Not(Ok[t](arr, ln)))
        if s is not None:
            v = Val[t](arr, ln)
            if k != 'f':
                s.assume(z3.And(v >= lo, v <= hi))
            out.append(('ret', s, FV(v, w) if k == 'f' else IV(1, b=v != 0) if w == 1 else IV(w, **{k: v})))
        return out
    return f


CONV = {r'^dp3::common::strTo%s\(' % t: conv(t) for t in TY}


def pre_scalar(c):
    return [c.obj('s', STR, maxlen=MAX)]


def post_scalar(t):
    def f(c, o):
        a, ln = c.p['s'].el.t, c.p['s'].len
        if o.threw:
            return [('throws only when the text is not a value of the type', z3.Not(Ok[t](a, ln)))]
        k = TY[t][3]
        r = o.val.r if k == 'f' else z3.If(o.val.b, 1, 0) if t == 'Bool' else zi(o.val.u if t == 'Uint64' else o.val.s)
        return [('accepts only values of the type', Ok[t](a, ln)), ('the value of the text', r == Val[t](a, ln))]
    return f


# ---- lists: getVector over splitValue, typed lists over getVector
AA = z3.ArraySort(I, A)
SplitN = z3.Function('SplitN', A, I, I, I, I)
SplitL = z3.Function('SplitL', A, I, I, I, A)
SplitE = z3.Function('SplitE', A, I, I, I, AA)


def list_node(f, *x):
    return VecN(VS, f[0](*x), VecN(STR, f[1](*x), Leaf(STR.elem, f[2](*x))))


def c_split(E, st, a, i):
    n = E.cell_node(st, a[1])
    b, e = zi(a[2].u), zi(a[3].u)
    E.oblige(st, z3.And(b <= e, e <= zi(n.len)), 'precondition of splitValue')
    x = (n.el.t, zi(n.len), b, e)
    s2 = st.fork()
    st.assume(z3.And(SplitN(*x) >= 0, SplitN(*x) <= zi(n.len) + 1))
    E.set_container(st, a[0], list_node((SplitN, SplitL, SplitE), *x))
    return [('throw', s2, '_ZTISt13runtime_error'), ('ret', st, None)]


def pre_list(c):
    return [c.obj('out', VS), c.obj('s', STR, maxlen=MAX)]


def post_list(c, o):
    a, ln = c.p['s'].el.t, c.p['s'].len
    br = z3.And(ln >= 2, sel(a, 0) == 91, sel(a, ln - 1) == 93)
    if o.threw:
        return [('throws only while splitting a bracketed list', br)]
    n = o.cell('out')
    k = z3.Int('k!p')
    x = (a, ln, z3.IntVal(1), ln - 1)
    return [('number of elements', zi(n.len) == z3.If(ln == 0, 0, z3.If(br, SplitN(*x), 1))),
            ('a bracketed list is split between the brackets', z3.Implies(br, z3.ForAll([k], z3.Implies(L(k, zi(n.len)), z3.And(sel(n.el.len, k) == sel(SplitL(*x), k), sel(n.el.el.t, k) == sel(SplitE(*x), k)))))),
            ('another value is the only element', z3.Implies(z3.And(ln > 0, z3.Not(br)), z3.And(sel(n.el.len, 0) == ln, z3.ForAll([k], z3.Implies(L(k, ln), sel(sel(n.el.el.t, 0), k) == sel(a, k))))))]


L = lambda k, n: z3.And(k >= 0, k < n)
VecNn = z3.Function('ListN', A, I, I)
VecLn = z3.Function('ListL', A, I, A)
VecEn = z3.Function('ListE', A, I, AA)


def c_list(E, st, a, i):
    n = E.cell_node(st, a[1])
    x = (n.el.t, zi(n.len))
    k = z3.Int('k!f')
    s2 = st.fork()
    st.assume(z3.And(VecNn(*x) >= 0, VecNn(*x) <= zi(n.len) + 1))
    st.assume(z3.ForAll([k], z3.Implies(L(k, VecNn(*x)), L(sel(VecLn(*x), k), MAX + 1)), patterns=[sel(VecLn(*x), k)]))
    E.set_container(st, a[0], list_node((VecNn, VecLn, VecEn), *x))
    return [('throw', s2, 'unbalanced'), ('ret', st, None)]


def pre_typed(t):
    def f(c):
        return [c.obj('out', SVec(SFp(TY[t][2]) if TY[t][3] == 'f' else SInt(TY[t][2], TY[t][3]))), c.obj('s', STR, maxlen=MAX)]
    return f


def post_typed(t):
    def f(c, o):
        x = (c.p['s'].el.t, c.p['s'].len)
        k = z3.Int('k!p')
        N, Ls, Es = VecNn(*x), VecLn(*x), VecEn(*x)
        if o.threw:
            if o.val == 'unbalanced':
                return []
            return [('throws only for an element that is not a value of the type', z3.Exists([k], z3.And(L(k, N), z3.Not(Ok[t](sel(Es, k), sel(Ls, k))))))]
        n = o.cell('out')
        return [('as many values as elements', zi(n.len) == N),
                ('accepts only values of the type', z3.ForAll([k], z3.Implies(L(k, N), Ok[t](sel(Es, k), sel(Ls, k))))),
                ('value k is the value of element k', z3.ForAll([k], z3.Implies(L(k, N), sel(n.el.t, k) == Val[t](sel(Es, k), sel(Ls, k)))))]
    return f


def t_typed(t):
    def f(lc, c):
        x = (c.p['s'].el.t, c.p['s'].len)
        k = z3.Int('k!t')
        Ls, Es = VecLn(*x), VecEn(*x)
        out = []
        for i in lc.lv:
            if lc.lv[i].kind == 'len':
                continue
            out.append(('T:ok(%s)' % i, lambda v, i=i: z3.ForAll([k], z3.Implies(L(k, zi(v.v(i))), Ok[t](sel(Es, k), sel(Ls, k))))))
            for ar in lc.arrs:
                out.append(('T:val(%s,%s)' % (ar, i), lambda v, i=i, ar=ar: z3.ForAll([k], z3.Implies(L(k, zi(v.v(i))), sel(v.arr(ar), k) == Val[t](sel(Es, k), sel(Ls, k))))))
        return out
    return f


def targets(thorough):
    C = only(SCANNERS, 'skipws')
    case = lambda t: lambda c, m: t + ' ' + qc(m.s(c.p['s']))
    ts = [Target('ParameterValue(trim)', 'drv_trim', pre_s, post_trim, contracts=C, case=case('trim'), about='surrounding blanks removed, nothing else'),
          Target('ParameterValue(no trim)', 'drv_notrim', pre_s, post_same, contracts=C, case=case('trim'), about='text kept')]
    for t in TY:
        if t not in ('Long', 'Ulong'):
            ts.append(Target('get' + t, 'drv_' + t, pre_scalar, post_scalar(t), contracts=CONV, case=case('scalar'), about='the strict conversion of the text, unchanged'))
    ts.append(Target('getVector', 'drv_getVector', pre_list, post_list, contracts={r'ParameterValue::splitValue\(': c_split}, type_shapes=PV, case=case('vector'), timeout=20000,
                     covers=[('throws', lambda c, o: o.threw), ('returns', lambda c, o: not o.threw)], about='[...] is split; anything else is one element; empty is none'))
    for t in TY:
        if t not in ('Long', 'Ulong', 'Bool'):
            ts.append(Target('get%sVector' % t, 'drv_%sVector' % t, pre_typed(t), post_typed(t), contracts=dict(CONV, **{r'ParameterValue::getVector\(': c_list}), type_shapes=PV, frames=False,
                             templates=[t_typed(t)], case=case('typed'), timeout=20000, about='element-wise strict conversion'))
    sp = [Target('ParameterValue::substr', 'drv_substr', pre_substr, post_substr, contracts=C, type_shapes=PV, about='trimmed part of the value'),
          Target('splitValue', 'drv_split', pre_split, post_split, contracts=dict(SCANNERS, **{r'^dp3::common::ParameterValue::substr\(int, int\) const$': c_substr}), type_shapes=PV,
                 templates=[t_split], timeout=30000, frames=False, budget=500, covers=[('throws', lambda c, o: o.threw), ('returns', lambda c, o: not o.threw)],
                 case=lambda c, m: 'split %s %d %d' % (qc(m.s(c.p['s'])), m.i(c.p['st']), m.i(c.p['last'])), about='number of elements; rejects exactly unbalanced text')]
    return [('pvalue', t) for t in ts] + [('pvsplit', t) for t in sp]
