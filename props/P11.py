"""Parameter sets: reading, writing, subsets, access (common/ParameterSet{,Impl}.{h,cc})."""
from unit import Target
from specs import *
from engine import Obj

UNITS = {'pset': 'pset.cc'}
NATIVE = 'P11.cc'
SEARCH_SECS = 12
BOUND = 'random sequences of up to 12 operations (add, replace, remove, adopt text/file/collection/arguments, subsets, write and read back, access) against a reference map in both key modes; typed access of boundary values; random texts up to 30 characters; malformed lines'
ASSUMPTIONS = ['strings are shorter than 2^31-2 characters', 'proved: typed access and key names; findKV (std::map lookup) enters by contract: the entry of the key, or none; reading, writing and subsets are bounded']
MAX = (1 << 31) - 3
PVT = {'dp3::common::ParameterValue': STR}
SC = {'Bool': (1, 'u'), 'Int': (32, 's'), 'Uint': (32, 'u'), 'Int16': (16, 's'), 'Uint16': (16, 'u'), 'Int32': (32, 's'), 'Uint32': (32, 'u'), 'Int64': (64, 's'), 'Uint64': (64, 'u'),
      'Float': (4, 'f'), 'Double': (8, 'f'), 'Time': (64, 's')}
AA = z3.ArraySort(I, A)
Bad = {t: z3.Function('GetBad' + t, A, I, B) for t in list(SC) + ['String']}
Val = {t: z3.Function('GetVal' + t, A, I, R if SC[t][1] == 'f' else I) for t in SC}
StrL, StrT = z3.Function('GetStrL', A, I, I), z3.Function('GetStrT', A, I, A)
VBad = {t: z3.Function('VecBad' + t, A, I, B) for t in Bad}
VLen = {t: z3.Function('VecLen' + t, A, I, I) for t in Bad}
VVal = {t: z3.Function('VecVal' + t, A, I, z3.ArraySort(I, R if t in SC and SC[t][1] == 'f' else I)) for t in Bad}
VTxt = z3.Function('VecTxtString', A, I, AA)
ExpL, ExpT, ExpBad = z3.Function('ExpandL', A, I, I), z3.Function('ExpandT', A, I, A), z3.Function('ExpandBad', A, I, B)


def elem(t):
    return STR if t == 'String' else SFp(SC[t][0]) if SC[t][1] == 'f' else SInt(SC[t][0], SC[t][1])


def pset(c):
    """a parameter set in which the key may be present, with value val"""
    c.p['known'] = z3.Bool('known')
    c.obj('val', STR, maxlen=MAX)
    c.st0.mem['node'] = Obj('node', {32: c.p['key'], 64: c.p['val']}, None, 'mem')
    c.st0.mem['impl'] = Obj('impl', {}, None, 'mem')
    c.st0.mem['mapend'] = Obj('mapend', {}, None, 'mem')
    c.st0.mem['ps'] = Obj('ps', {0: Ptr('impl'), 8: Ptr(None)}, None, 'mem')
    return Ptr('ps')


def c_findKV(E, st, a, i):
    """the entry of the key; end() when there is none, or an exception if wanted"""
    n = E.cell_node(st, a[1])
    key = E.target_ctx.p['key']
    k = z3.Int('k!key')
    E.oblige(st, z3.And(zi(n.len) == zi(key.len), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(key.len)), sel(n.el.t, k) == sel(key.el.t, k)))), 'the key that is looked up is the key asked for')
    if not (isinstance(a[0], Ptr) and a[0].root == 'impl'):
        raise Unsupported('lookup in another set')
    known = E.target_ctx.p['known']
    out = []
    s = st.fork()
    s.assume(known)
    out.append(('ret', s, Ptr('node')))
    thr = a[2].b if hasattr(a[2], 'b') else a[2].u != 0
    st.assume(z3.Not(known))
    s2 = st.fork()
    s2.assume(thr)
    out.append(('throw', s2, 'unknown key'))
    st.assume(z3.Not(thr))
    out.append(('ret', st, Ptr('mapend')))
    return [o for o in out if E.feasible(o[1])]


def text_of(E, st, p):
    n = E.cell_node(st, p)
    return n.el.t, zi(n.len)


def c_get(t):
    def f(E, st, a, i):
        x = text_of(E, st, a[0])
        out, s = fork_throw(E, st, Bad[t](*x))
        if s is not None:
            v = Val[t](*x)
            w, k = SC[t]
            if k != 'f':
                s.assume(z3.And(v >= (-(1 << (w - 1)) if k == 's' else 0), v < (1 << (w - 1) if k == 's' else 1 << w)))
            out.append(('ret', s, FV(v, w) if k == 'f' else IV(1, b=v != 0) if w == 1 else IV(w, **{k: v})))
        return out
    return f


def c_getS(E, st, a, i):
    x = text_of(E, st, a[1])
    out, s = fork_throw(E, st, Bad['String'](*x))
    if s is not None:
        s.assume(StrL(*x) >= 0)
        E.set_container(s, a[0], mkstr(StrL(*x), StrT(*x)))
        out.append(('ret', s, None))
    return out


def c_expand(E, st, a, i):
    x = text_of(E, st, a[1])
    out, s = fork_throw(E, st, ExpBad(*x))
    if s is not None:
        s.assume(ExpL(*x) >= 0)
        E.set_container(s, a[0], mkstr(ExpL(*x), ExpT(*x)))
        out.append(('ret', s, None))
    return out


def c_vec(t):
    def f(E, st, a, i):
        x = text_of(E, st, a[1])
        out, s = fork_throw(E, st, VBad[t](*x))
        if s is not None:
            s.assume(VLen[t](*x) >= 0)
            el = VecN(STR, VVal[t](*x), Leaf(STR.elem, VTxt(*x))) if t == 'String' else Leaf(elem(t), VVal[t](*x))
            E.set_container(s, a[0], VecN(SVec(elem(t)), VLen[t](*x), el))
            out.append(('ret', s, None))
        return out
    return f


GET = {r'^dp3::common::ParameterValue::get%s\(\) const$' % t: c_get(t) for t in SC}
GET[r'^dp3::common::ParameterValue::getString\b.*\(\) const$'] = c_getS
VECC = {r'^dp3::common::ParameterValue::get%sVector\(\) const$' % t: c_vec(t) for t in Bad}
C = dict(GET, **VECC, **{r'ParameterValue::expand\(\) const$': c_expand, r'ParameterSetImpl::findKV\(': c_findKV, r'^std::map<.*>::end\(\) const$': lambda E, st, a, i: Ptr('mapend')})


def setup(E, c):
    E.target_ctx = c


def txt(c):
    return c.p['val'].el.t, c.p['val'].len


def pre(t, dflt, vec):
    def f(c):
        c.E.target_ctx = c
        out = []
        if vec or t in ('String', None):
            out.append(c.obj('out', (SVec(elem(t)) if vec else STR)))
        c.obj('key', STR, maxlen=MAX)
        out += [pset(c), c.ptr['key']]
        if dflt:
            if vec or t == 'String':
                out.append(c.obj('dflt', SVec(elem(t)) if vec else STR))
            elif t == 'Bool':
                out.append(c.bool('dflt'))
            else:
                w, k = SC[t]
                out.append(c.real('dflt', w) if k == 'f' else getattr(c, k)('dflt', w))
        if vec:
            out.append(c.bool('expand'))
        return out
    return f


def throws(o, c, bad, dflt):
    """exceptions: an unknown key without default, or a value that is rejected"""
    known = c.p['known']
    if o.val == 'unknown key':
        return [('rejects an unknown key only without default', z3.BoolVal(not dflt)), ('rejects a key only when it is unknown', z3.Not(known))]
    return [('rejects only a present value that is not of the type', z3.And(known, bad))]


def same_nodes(n, m):
    k, j = z3.Int('k!p'), z3.Int('j!p')
    r = [zi(n.len) == zi(m.len)]
    ins = z3.And(k >= 0, k < zi(n.len))
    if isinstance(n.el, VecN):
        r.append(z3.ForAll([k], z3.Implies(ins, sel(n.el.len, k) == sel(m.el.len, k))))
        r.append(z3.ForAll([k, j], z3.Implies(z3.And(ins, j >= 0, j < sel(n.el.len, k)), sel(sel(n.el.el.t, k), j) == sel(sel(m.el.el.t, k), j))))
    else:
        r.append(z3.ForAll([k], z3.Implies(ins, sel(n.el.t, k) == sel(m.el.t, k))))
    return z3.And(*r)


def post(t, dflt):
    def f(c, o):
        known, x = c.p['known'], txt(c)
        if o.threw:
            return throws(o, c, Bad[t](*x), dflt)
        k = SC[t][1]
        r = o.val.r if k == 'f' else z3.If(o.val.b, 1, 0) if t == 'Bool' else zi(getattr(o.val, k))
        d = c.p.get('dflt')
        d = z3.If(d, 1, 0) if t == 'Bool' and dflt else d
        return [('the conversion of the value of a present key', z3.Implies(known, z3.And(z3.Not(Bad[t](*x)), r == Val[t](*x)))),
                ('the default of an absent key' if dflt else 'an absent key is rejected', z3.Or(known, r == d if dflt else False))]
    return f


def post_str(dflt):
    def f(c, o):
        known, x = c.p['known'], txt(c)
        if o.threw:
            return throws(o, c, Bad['String'](*x), dflt)
        n = o.cell('out')
        return [('the string of the value of a present key', z3.Implies(known, z3.And(z3.Not(Bad['String'](*x)), same_nodes(n, mkstr(StrL(*x), StrT(*x)))))),
                ('the default of an absent key' if dflt else 'an absent key is rejected', z3.Or(known, same_nodes(n, c.p['dflt']) if dflt else z3.BoolVal(False)))]
    return f


def post_raw(c, o):
    if o.threw:
        return throws(o, c, z3.BoolVal(False), False)
    return [('the value of a present key', z3.And(c.p['known'], same_nodes(o.cell('out'), c.p['val'])))]


def post_vec(t, dflt):
    def f(c, o):
        known, e, x = c.p['known'], c.p['expand'], txt(c)
        y = (ExpT(*x), ExpL(*x))
        if o.threw:
            return throws(o, c, z3.Or(z3.And(e, ExpBad(*x)), VBad[t](z3.If(e, y[0], x[0]), z3.If(e, y[1], x[1]))), dflt)
        n = o.cell('out')

        def is_list(z):
            el = VecN(STR, VVal[t](*z), Leaf(STR.elem, VTxt(*z))) if t == 'String' else Leaf(elem(t), VVal[t](*z))
            return same_nodes(n, VecN(SVec(elem(t)), VLen[t](*z), el))
        return [('the list of the expanded value of a present key', z3.Implies(z3.And(known, e), z3.And(z3.Not(ExpBad(*x)), z3.Not(VBad[t](*y)), is_list(y)))),
                ('the list of the value of a present key', z3.Implies(z3.And(known, z3.Not(e)), z3.And(z3.Not(VBad[t](*x)), is_list(x)))),
                ('the default of an absent key' if dflt else 'an absent key is rejected', z3.Or(known, same_nodes(n, c.p['dflt']) if dflt else z3.BoolVal(False)))]
    return f


# ---- key names
FindLast = SpecFn('FindLastChar', [A, I, I], I, lambda a, ch, e: z3.If(e <= 0, z3.IntVal(-1), z3.If(sel(a, e - 1) == ch, e - 1, FindLast(a, ch, e - 1))))


def c_rfind(E, st, a, i):
    E.assumptions.add('std::string::rfind(char) as in the C++ standard')
    n = E.cell_node(st, a[0])
    arr, ln, ch = n.el.t, zi(n.len), zi(a[1].s)
    if a[2].const() != NPOS:
        raise Unsupported('rfind with a position')
    r = FindLast(arr, ch, ln)
    st.assume(z3.And(r >= -1, r < ln, z3.Implies(r >= 0, sel(arr, r) == ch)))
    return IV(64, u=z3.If(r == -1, z3.IntVal(NPOS), r))


def pre_name(c):
    return [c.obj('out', STR), c.obj('k', STR, maxlen=MAX)]


def post_name(pos, lo, hi):
    def f(c, o):
        if o.threw:
            return [('never throws', False)]
        a, ln = c.p['k'].el.t, c.p['k'].len
        q = pos(a, ln)
        b, e = lo(q, ln), hi(q, ln)
        n, k = o.cell('out'), z3.Int('k!p')
        return [('length of the part', zi(n.len) == e - b), ('text of the part', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < e - b), sel(n.el.t, k) == sel(a, b + k))))]
    return f


def targets(thorough):
    out = []
    kw = dict(contracts=C, type_shapes=PVT, frames=False)
    for t in SC:
        out.append(Target('get%s(key)' % t, 'drv_get_' + t, pre(t, False, False), post(t, False), about='conversion of the value, rejects an unknown key', **kw))
        out.append(Target('get%s(key, default)' % t, 'drv_def_' + t, pre(t, True, False), post(t, True), about='conversion of the value, or the default when the key is absent', **kw))
    out.append(Target('getString(key)', 'drv_get_String', pre('String', False, False), post_str(False), **kw))
    out.append(Target('getString(key, default)', 'drv_def_String', pre('String', True, False), post_str(True), **kw))
    out.append(Target('get(key)', 'drv_get', pre(None, False, False), post_raw, **kw))
    for t in Bad:
        if t != 'Bool':
            out.append(Target('get%sVector(key)' % t, 'drv_vec_' + t, pre(t, False, True), post_vec(t, False), about='list of the (expanded) value, rejects an unknown key', **kw))
            out.append(Target('get%sVector(key, default)' % t, 'drv_vdef_' + t, pre(t, True, True), post_vec(t, True), about='list of the (expanded) value, or the default when the key is absent', **kw))
    last = lambda a, ln: FindLast(a, z3.IntVal(46), ln)
    first = lambda a, ln: FindChar(a, z3.IntVal(61), z3.IntVal(0), ln)
    none = lambda q, x, y: z3.If(q == -1, x, y)
    zero = lambda q, ln: z3.IntVal(0)
    end = lambda q, ln: ln
    kr = dict(contracts={r'^std::(__cxx11::basic_)?string::rfind\(char, unsigned long\) const$': c_rfind, r'basic_string<.*>::rfind\(char, unsigned long\) const$': c_rfind})
    out.append(Target('keyName', 'drv_keyName', pre_name, post_name(last, lambda q, ln: none(q, 0, q + 1), end), about='after the last dot', **kr))
    out.append(Target('moduleName', 'drv_moduleName', pre_name, post_name(last, zero, lambda q, ln: none(q, 0, q)), about='before the last dot', **kr))
    out.append(Target('keyPart', 'drv_keyPart', pre_name, post_name(first, zero, lambda q, ln: none(q, ln, q)), about='before the first ='))
    out.append(Target('valuePart', 'drv_valuePart', pre_name, post_name(first, lambda q, ln: none(q, 0, q + 1), end), about='after the first ='))
    return [('pset', t) for t in out]
