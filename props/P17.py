"""Baseline-dependent averaging buffers (base/BdaBuffer.h, base/BdaBuffer.cc)."""
from unit import Target
from specs import *
from engine import Obj
from irparse import INT, PTR, Ty

UNITS = {'bda': 'bda.cc'}
NATIVE = 'P17.cc'
CXXFLAGS = ['-fno-access-control']
SEARCH_SECS = 8
BOUND = 'random histories of up to 34 operations on three buffers of up to 39 values, data buffers "", "x" and "y"'
ASSUMPTIONS = ['floating-point values treated as reals', 'the map of data buffers is a sequence of named vectors; std::vector::insert at the end appends']
DBL = Ty('fp', 'double')
F8, U8 = SFp(8), SInt(64)
CF = SStruct({0: SFp(4), 4: SFp(4)}, 8)
TOL = z3.RealVal('0.000002')
ROW = SStruct({0: F8, 8: F8, 16: F8, 24: U8, 32: U8, 40: U8, 48: U8, 56: U8, 64: F8, 72: F8, 80: F8}, 88)
ROWNAMES = {0: 'time', 8: 'interval', 16: 'exposure', 24: 'row number', 32: 'baseline', 40: 'channels', 48: 'correlations', 56: 'offset'}
ab = lambda x: z3.If(x >= 0, x, -x)


# ---- comparisons
def pre_time(c):
    return [c.real('x'), c.real('y')]


def post_time(f):
    return lambda c, o: [('never throws', False)] if o.threw else [('comparison with tolerance', o.val.b == f(c.p['x'], c.p['y']))]


TIMES = [('less', lambda x, y: x < y - TOL), ('lesseq', lambda x, y: x < y + TOL), ('greatereq', lambda x, y: x > y - TOL), ('equal', lambda x, y: ab(x - y) < TOL)]


def pre_rows(c):
    from engine import is_nan
    r = [c.obj('a', ROW), c.obj('b', ROW)]
    for n in 'ab':
        c.assume(z3.And(*[z3.Not(is_nan(c.p[n].f[k].t)) for k in (0, 8, 16)]))
    # the comparison of a number with a NaN is outside the real-number reading: the native search decides it
    c.assume(z3.And(*[z3.Or(is_nan(c.p['a'].f[k].t), z3.Not(is_nan(c.p['b'].f[k].t))) for k in (64, 72, 80)]))
    return r


def equal_rows(a, b, nan):
    """a, b: offset -> term"""
    e = [ab(a(o) - b(o)) < TOL for o in (0, 8, 16)] + [a(o) == b(o) for o in (24, 32, 40, 48)]
    for o in (64, 72, 80):
        e.append(z3.Or(z3.And(nan(a(o)), nan(b(o))), z3.And(z3.Not(nan(a(o))), z3.Not(nan(b(o))), ab(a(o) - b(o)) < TOL)))
    return z3.And(*e)


def post_rows(c, o):
    if o.threw:
        return [('never throws', False)]
    from engine import is_nan
    f = lambda n: (lambda k: c.p[n].f[k].t)
    return [('all metadata equal', o.val.b == equal_rows(f('a'), f('b'), is_nan))]


# ---- the buffer: data buffers 0.., flags 48.., weights 72.., rows 96.., capacities 120, 128
DATA = SVec(SStruct({32: SVec(CF, 8)}, 56), 56)
FLAG, WEIGHT, ROWS = SVec(SInt(8), 1), SVec(SFp(4), 4), SVec(ROW, 88)
BUF = SStruct({0: DATA, 48: FLAG, 72: WEIGHT, 96: ROWS, 120: U8, 128: U8}, 136)
Main = z3.Function('is_main', I, z3.BoolSort())


def buffer(c, name='b'):
    b = c.obj(name, BUF)
    n = c.p[name]
    f = n.f
    cap, rem = f[120].t, f[128].t
    used = cap - rem
    BIG = 1 << 60
    k = z3.Int('k!b')
    c.assume(z3.And(rem >= 0, rem <= cap, cap < BIG, zi(f[0].len) >= 0, zi(f[0].len) < BIG, zi(f[96].len) >= 0, zi(f[96].len) < BIG))
    # representation invariant: every enabled buffer holds one value per element
    lens = f[0].el.f[32].len
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(f[0].len)), sel(lens, k) == used), patterns=[sel(lens, k)]))
    c.p['has_f'], c.p['has_w'] = z3.Bool('has_flags'), z3.Bool('has_weights')
    c.assume(zi(f[48].len) == z3.If(c.p['has_f'], used, 0))
    c.assume(zi(f[72].len) == z3.If(c.p['has_w'], used, 0))
    c.p['used'] = used
    return b


def c_cap(which):
    def f(E, st, a, i):
        x = fresh_int('capacity')
        c = E.ctx
        n = E.cell_node(st, E.norm(st, a[0]))
        st.assume(z3.And(x >= zi(n.len), x < (1 << 62), (x > 0) == c.p[which]))
        return IV(64, u=x)
    return f


def it_of(E, st, p):
    return E.norm(st, E.load(st, p, PTR))


def c_begin(E, st, a, i):
    p = E.norm(st, a[0])
    return Ptr(p.root, p.path + (0, 0))


def c_end(E, st, a, i):
    p = E.norm(st, a[0])
    return Ptr(p.root, p.path + (E.cell_node(st, p).len, 0))


def c_iteq(neg):
    def f(E, st, a, i):
        p, q = it_of(E, st, a[0]), it_of(E, st, a[1])
        e = zi(p.path[-2]) == zi(q.path[-2])
        return IV(1, b=z3.Not(e) if neg else e)
    return f


def c_next(E, st, a, i):
    p = it_of(E, st, a[0])
    E.store(st, a[0], Ptr(p.root, p.path[:-2] + (z3.simplify(zi(p.path[-2]) + 1), 0)), PTR)
    return a[0]


def c_ismain(E, st, a, i):
    p = E.norm(st, a[0])
    return IV(1, b=Main(zi(p.path[1])))


def c_newrow(E, st, a, i):
    """rows_.emplace_back(time, interval, exposure, row_nr, baseline, channels, correlations, offset, uvw)"""
    v = E.norm(st, a[0])
    n = E.cell_node(st, v)
    vals = [E.load(st, a[1 + k], DBL).r for k in range(3)] + [E.load(st, a[4 + k], INT(64)).u for k in range(5)]
    uvw = E.load(st, a[9], PTR)
    if uvw.root is None:
        vals += [fresh('nan', R) for _ in range(3)]
    else:
        vals += [E.load(st, E.padd(st, uvw, 8 * k), DBL).r for k in range(3)]
    el = StructN(n.el.shape, {o: Leaf(n.el.f[o].shape, z3.Store(n.el.f[o].t, zi(n.len), zi(x) if not z3.is_expr(x) else x)) for o, x in zip(sorted(n.el.f), vals)})
    E.set_container(st, v, VecN(n.shape, z3.simplify(zi(n.len) + 1), el))
    return Ptr(v.root, v.path + (n.len, 0))


MAP = r'^std::(map|_Rb_tree)<.*'
CON = {r'^std::map<.*>::c?begin\(\)': c_begin, r'^std::map<.*>::c?end\(\)': c_end, r'^(bool )?std::operator==\(std::_Rb_tree_(const_)?iterator<': c_iteq(False), r'^(bool )?std::operator!=\(std::_Rb_tree_(const_)?iterator<': c_iteq(True),
       r'^std::_Rb_tree_(const_)?iterator<.*>::operator(->|\*)\(\) const': lambda E, st, a, i: it_of(E, st, a[0]),
       r'^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(\)$': c_next,
       r'^bool std::operator==<char, .*\(.*, char const\*\)$': c_ismain, r'^bool std::operator==<char>\(std::string const&, char const\*\)$': c_ismain,
       r'^std::(string|(__cxx11::)?basic_string<char.*>)::empty\(\) const': c_ismain,  # the main field has the empty name
       r'^std::vector<unsigned char.*>::capacity\(\)': c_cap('has_f'), r'^std::vector<float.*>::capacity\(\)': c_cap('has_w'),
       r'emplace_back<': c_newrow}


def pre_add(d, f, w, u):
    def pre(c):
        b = buffer(c)
        args = [b] + [c.real(x) for x in ('time', 'interval', 'exposure')] + [c.u(x, 64) for x in ('bl', 'nch', 'nco', 'nr')]
        c.assume(z3.And(c.p['nch'] < 1 << 30, c.p['nco'] < 1 << 30))
        n = c.p['nch'] * c.p['nco']
        c.p['n'] = z3.Int('n_elements')
        c.assume(z3.And(c.p['n'] == n, n >= 0))
        for nm, on, sh, ln in (('data', d, CF, n), ('flags', f, SInt(8), n), ('weights', w, SFp(4), n), ('uvw', u, F8, 3)):
            args.append(c.arr(nm, sh, ln) if on else NULL)
        c.p['given'] = (d, f, w, u)
        # one arbitrary data buffer K and value J
        c.p['K'], c.p['J'] = z3.Ints('K J')
        return args
    return pre


def changed(c, o):
    return o.st.mem['b'].cells


def fields_of(c, o):
    s = o.st.mem['b'].cells
    return s[0], s[48], s[72], s[96], s[120], s[128]


def post_add(c, o):
    p = c.p
    f = p['b'].f
    D, F, W, RW, CAP, REM = fields_of(c, o)
    nrows, used, n, rem = zi(f[96].len), p['used'], p['n'], f[128].t
    last = lambda k: sel(f[96].el.f[k].t, nrows - 1)
    early = z3.And(nrows > 0, p['time'] + p['interval'] / 2 < last(0) - last(8) / 2 + TOL)
    K, J = p['K'], p['J']
    inK = z3.And(K >= 0, K < zi(f[0].len))
    cell = lambda node, q: sel(sel(node.el.f[32].el.f[q].t, K), J)
    d, fl, w, u = p['given']
    untouched = [('data stays', z3.And(*[z3.Implies(z3.And(inK, J < used), cell(D, q) == cell(f[0], q)) for q in (0, 4)])),
                 ('flags stay', z3.Implies(J < used, sel(F.el.t, J) == sel(f[48].el.t, J))), ('weights stay', z3.Implies(J < used, sel(W.el.t, J) == sel(f[72].el.t, J))),
                 ('earlier rows stay', z3.Implies(z3.And(J >= 0, J < nrows), z3.And(*[sel(RW.el.f[k].t, J) == sel(f[96].el.f[k].t, J) for k in RW.el.f]))),
                 ('the capacity stays', zi(CAP.u) == f[120].t)]
    ln = sel(D.el.f[32].len, K)
    old = [('no data added', z3.Implies(inK, ln == used)), ('no flags added', zi(F.len) == zi(f[48].len)), ('no weights added', zi(W.len) == zi(f[72].len)), ('no row added', zi(RW.len) == nrows), ('capacity left', zi(REM.u) == rem)]
    if o.threw:
        return [('only a row before the last one is refused', early)] + untouched + old
    r = [('a row before the last one is refused', z3.Not(early)), ('added when it fits', o.val.b == (n <= rem))] + untouched
    r += [(nm, z3.Implies(z3.Not(o.val.b), g)) for nm, g in old]
    ok = lambda g: z3.Implies(o.val.b, g)
    i = J - used
    mine = z3.And(i >= 0, i < n)
    r += [('every data buffer grows', ok(z3.Implies(inK, ln == used + n))), ('flags grow', ok(zi(F.len) == z3.If(p['has_f'], used + n, 0))), ('weights grow', ok(zi(W.len) == z3.If(p['has_w'], used + n, 0))),
          ('capacity shrinks', ok(zi(REM.u) == rem - n)), ('one more row', ok(zi(RW.len) == nrows + 1))]
    for q in (0, 4):
        v = z3.If(Main(K), sel(p['data'].el.f[q].t, i), 0) if d else z3.RealVal(0)
        r.append(('new data %d' % q, ok(z3.Implies(z3.And(inK, mine), cell(D, q) == v))))
    r.append(('new flags', ok(z3.Implies(z3.And(p['has_f'], mine), sel(F.el.t, J) == (sel(p['flags'].el.t, i) if fl else 0)))))
    r.append(('new weights', ok(z3.Implies(z3.And(p['has_w'], mine), sel(W.el.t, J) == (sel(p['weights'].el.t, i) if w else 0)))))
    new = lambda k: sel(RW.el.f[k].t, nrows)
    want = {0: p['time'], 8: p['interval'], 16: p['exposure'], 24: p['nr'], 32: p['bl'], 40: p['nch'], 48: p['nco'], 56: used}
    if u:
        want.update({64 + 8 * k: sel(p['uvw'].el.t, k) for k in range(3)})
    for k, v in want.items():
        r.append(('new row: ' + ROWNAMES.get(k, 'uvw'), ok(new(k) == v)))
    return r


def t_add(lc, c):
    out = []
    p = c.p
    f, used, n = p['b'].f, p['used'], p['n']
    K, J = p['K'], p['J']
    d = p['given'][0]
    i = J - used
    pos = lambda x: zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    arrs = {}
    for nm in lc.arrs:
        for path in ('f32e', 'f32L'):
            pass
        if nm.startswith('b+0.') and 'f32' in nm:
            arrs[nm] = nm
    for x in lc.lv:
        if lc.lv[x].kind not in ('ptr', 'int'):
            continue
        for nm in arrs:
            s = lc.arrs[nm](lc.entry.st, lc.entry.regs).sort()
            if s == z3.ArraySort(I, I):
                k = z3.Int('k!t')
                out.append(('T:len(%s,%s)' % (nm, x), lambda v, nm=nm, x=x: z3.And(pos(v.v(x)) >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(f[0].len)), sel(v.arr(nm), k) == z3.If(k < pos(v.v(x)), used + n, used)), patterns=[sel(v.arr(nm), k)]))))
            elif s == z3.ArraySort(I, z3.ArraySort(I, R)):
                q = 4 if nm.rstrip('v').endswith('f4') else 0

                def h(v, nm=nm, x=x, q=q):
                    new = sel(sel(v.arr(nm), K), J)
                    old = sel(sel(f[0].el.f[32].el.f[q].t, K), J)
                    val = z3.If(Main(K), sel(p['data'].el.f[q].t, i), 0) if d else z3.RealVal(0)
                    inK = z3.And(K >= 0, K < zi(f[0].len))
                    return z3.Implies(inK, z3.And(z3.Implies(J < used, new == old), z3.Implies(z3.And(i >= 0, i < n, K < pos(v.v(x))), new == val), z3.Implies(K >= pos(v.v(x)), new == old)))
                out.append(('T:val(%s,%s)' % (nm, x), h))
    return out


# ---- whole buffers
RowEq = z3.Function('rows_equal', I, z3.BoolSort())


def pre_meta(c):
    a, b = c.obj('a', BUF), c.obj('b', BUF)
    for n in 'ab':
        c.assume(z3.And(zi(c.p[n].f[96].len) >= 0, zi(c.p[n].f[96].len) < 1 << 60))
    return [a, b]


def c_roweq(E, st, a, i):
    p, q = E.norm(st, a[0]), E.norm(st, a[1])
    E.oblige(st, z3.BoolVal({p.root, q.root} == {'a', 'b'} and p.path[0] == 96 and q.path[0] == 96), 'a row of each buffer')
    E.oblige(st, zi(p.path[1]) == zi(q.path[1]), 'rows with the same number')
    E.oblige(st, z3.And(zi(p.path[1]) >= 0, zi(p.path[1]) < E.ctx.p['a'].f[96].len, zi(p.path[1]) < E.ctx.p['b'].f[96].len), 'the rows exist')
    return IV(1, b=RowEq(zi(p.path[1])))


def post_meta(c, o):
    if o.threw:
        return [('never throws', False)]
    na, nb = zi(c.p['a'].f[96].len), zi(c.p['b'].f[96].len)
    k = z3.Int('k!p')
    return [('as many rows, all equal', o.val.b == z3.And(na == nb, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < na), RowEq(k)), patterns=[RowEq(k)])))]


def t_meta(lc, c):
    k = z3.Int('k!t')
    pos = lambda x: zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    out = [('T:equal(%s)' % x, lambda v, x=x: z3.And(pos(v.v(x)) >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < pos(v.v(x))), RowEq(k)), patterns=[RowEq(k)]))) for x in lc.lv if lc.lv[x].kind in ('ptr', 'int')]
    for x in lc.lv:
        for y in lc.lv:
            if x < y and lc.lv[x].kind in ('ptr', 'int') and lc.lv[y].kind in ('ptr', 'int'):
                out.append(('T:together(%s,%s)' % (x, y), lambda v, x=x, y=y: pos(v.v(x)) == pos(v.v(y))))
    return out


def pre_b(c):
    return [buffer(c)]


def post_clear(c, o):
    if o.threw:
        return [('never throws', False)]
    D, F, W, RW, CAP, REM = fields_of(c, o)
    f = c.p['b'].f
    K = z3.Int('K')
    return [('no rows', zi(RW.len) == 0), ('no flags', zi(F.len) == 0), ('no weights', zi(W.len) == 0), ('all capacity free', z3.And(zi(REM.u) == f[120].t, zi(CAP.u) == f[120].t)),
            ('all data buffers remain, empty', z3.And(zi(D.len) == zi(f[0].len), z3.Implies(z3.And(K >= 0, K < zi(f[0].len)), sel(D.el.f[32].len, K) == 0)))]


def t_clear(lc, c):
    out = []
    k = z3.Int('k!t')
    n = zi(c.p['b'].f[0].len)
    pos = lambda x: zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    for nm in lc.arrs:
        if nm.startswith('b+0.') and nm.endswith('L'):
            for x in lc.lv:
                if lc.lv[x].kind in ('ptr', 'int'):
                    out.append(('T:empty(%s)' % x, lambda v, nm=nm, x=x: z3.And(pos(v.v(x)) >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < pos(v.v(x))), sel(v.arr(nm), k) == 0), patterns=[sel(v.arr(nm), k)]))))
    return out


def post_count(f):
    return lambda c, o: [('never throws', False)] if o.threw else [('count', zi(o.val.u) == f(c.p['b'].f))]


def pre_rowptr(c):
    b = buffer(c)
    r = c.u('row', 64)
    rows = c.p['b'].f[96]
    c.assume(c.p['row'] < zi(rows.len))
    off = sel(rows.el.f[56].t, c.p['row'])
    c.assume(z3.And(off >= 0, off <= c.p['used']))
    return [b, r]


def post_rowptr(fld):
    def f(c, o):
        if o.threw:
            return [('never throws', False)]
        n = c.p['b'].f[fld]
        off = sel(c.p['b'].f[96].el.f[56].t, c.p['row'])
        if o.val.root is None:
            return [('null only without values', zi(n.len) == 0)]
        p = o.val
        return [('null without values', zi(n.len) > 0), ('this field of this buffer', z3.BoolVal(p.root == 'b' and p.path[0] == fld)), ('at the offset of the row', zi(p.path[1]) == off)]
    return f


def pre_newrow(null):
    def f(c):
        out = c.out('out')
        a = [out] + [c.real(x) for x in ('time', 'interval', 'exposure')] + [c.u(x, 64) for x in ('nr', 'bl', 'nch', 'nco', 'off')]
        return a + [NULL if null else c.arr('uvw', F8, 3)]
    return f


def post_newrow(null):
    def f(c, o):
        if o.threw:
            return [('never throws', False)]
        from engine import is_nan
        r = []
        for k, n in {0: 'time', 8: 'interval', 16: 'exposure'}.items():
            r.append((n, o.cell('out', k).r == c.p[n]))
        for k, n in {24: 'nr', 32: 'bl', 40: 'nch', 48: 'nco', 56: 'off'}.items():
            r.append((n, zi(o.cell('out', k).u) == c.p[n]))
        for k in range(3):
            x = o.cell('out', 64 + 8 * k).r
            r.append(('uvw %d' % k, is_nan(x) if null else x == sel(c.p['uvw'].el.t, k)))
        return r
    return f


def targets(thorough):
    T = [('bda', Target(n, 'drv_' + n, pre_time, post_time(f))) for n, f in TIMES]
    T.append(('bda', Target('row-equal', 'drv_row_equal', pre_rows, post_rows, nan=True)))
    for nm, g in (('all', (1, 1, 1, 1)), ('none', (0, 0, 0, 0)), ('data', (1, 0, 0, 1)), ('flags', (0, 1, 0, 0)), ('weights', (0, 0, 1, 1))):
        T.append(('bda', Target('add-' + nm, 'drv_add', pre_add(*g), post_add, contracts=CON, templates=[t_add], timeout=30000, budget=300, nan=not g[3],
                                about='AddRow with ' + nm + ' given: appended to every enabled buffer at the offset of the row, or refused without any change')))
    T.append(('bda', Target('metadata-equal', 'drv_equal_meta', pre_meta, post_meta, contracts={r'^dp3::base::BdaBuffer::Row::IsMetadataEqual\(': c_roweq}, templates=[t_meta], timeout=30000)))
    T.append(('bda', Target('clear', 'drv_clear', pre_b, post_clear, contracts=CON, templates=[t_clear], timeout=30000)))
    T.append(('bda', Target('elements', 'drv_elements', pre_b, post_count(lambda f: f[120].t - f[128].t))))
    T.append(('bda', Target('remaining', 'drv_remaining', pre_b, post_count(lambda f: f[128].t))))
    T.append(('bda', Target('row-flags', 'drv_flags', pre_rowptr, post_rowptr(48), timeout=30000)))
    T.append(('bda', Target('row-weights', 'drv_weights', pre_rowptr, post_rowptr(72), timeout=30000)))
    T.append(('bda', Target('row', 'drv_row', pre_newrow(False), post_newrow(False))))
    T.append(('bda', Target('row-nouvw', 'drv_row', pre_newrow(True), post_newrow(True), nan=True)))
    return T
