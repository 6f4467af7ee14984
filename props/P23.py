"""Coordinates of stations: splitting of the baseline coordinates and rotation (base/Simulate.cc, PhaseShift::fillEulerMatrix)."""
from unit import Target
from specs import *
from engine import Obj
from irparse import INT, PTR, Ty
from unit import named_node
from stdmodels import uf
from irparse import Unsupported
import importlib.util, os

UNITS = {'simulator': 'simulator.cc'}
NATIVE = 'P23.cc'
CXXFLAGS = ['-fno-access-control']
SEARCH_SECS = 8
_sp = importlib.util.spec_from_file_location('p22_prepare', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'P22.py'))
_m = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(_m)
PREPARE = _m.PREPARE

BOUND = ('SetupUvwSplitting (with and without antenna positions), GetBaselinesSortedByLength and GetBaselineSelection are not under contract: they are run on generated arrays '
         '(up to 12 stations, up to 40 baselines, disjoint groups and autocorrelations) and their results checked against the spanning-forest definition.')
ASSUMPTIONS = ['Each step of the list given to SplitUvw derives a station that no other step derives and that differs from the known station of the step (the result of SetupUvwSplitting; checked there on generated arrays).',
               'casacore::product and casacore::transpose are the matrix product and transpose (stand-in in shims/casacore).',
               'Products and sums of doubles are those of the real numbers.', 'sin and cos satisfy sin^2 + cos^2 = 1 and are otherwise uninterpreted.']

DBL = Ty('fp', 'double')
F8, U8 = SFp(8), SInt(64)
AR = z3.ArraySort(I, R)
VD = SVec(F8, 8)
BLS = SVec(SStruct({0: U8, 8: U8}, 16), 16)
VI = VS = SVec(SInt(32), 4)
sin, cos = uf('sin'), uf('cos')
BIG = 1 << 30


def pre_split(c):
    p = c.p
    for x in ('nidx', 'nbl', 'nst'):
        p[x] = z3.Int(x)
        c.assume(z3.And(p[x] >= 0, p[x] < BIG))

    def vec(nm, sh, n):
        v = VecN(sh, n, named_node(sh, 0, nm).el)
        c.st0.mem[nm] = Obj(nm, {0: v}, None, 'mem')
        return v

    def table(nm, n):
        v = VecN(VD, 3 * n, named_node(VD, 0, nm).el)
        c.st0.mem[nm] = Obj(nm, {0: IV(64, u=n), 8: IV.c(64, 3), 16: v}, None, 'mem')
        return v.el.t
    idx, bl = vec('idx', VI, p['nidx']), vec('bl', BLS, p['nbl'])
    p['uvw'], p['st'] = table('uvw', p['nbl']), table('st', p['nst'])
    F_, S_, X = bl.el.f[0].t, bl.el.f[8].t, idx.el.t
    x_ = lambda k: idx_signed(idx, k)
    B = lambda k: z3.If(x_(k) < 0, -x_(k) - 1, x_(k))
    to = lambda k: z3.If(x_(k) < 0, sel(F_, B(k)), sel(S_, B(k)))
    fr = lambda k: z3.If(x_(k) < 0, sel(S_, B(k)), sel(F_, B(k)))
    p['K'], p['ST'] = z3.Ints('K ST')
    K, ST = p['K'], p['ST']
    exists = lambda b: z3.And(sel(F_, b) >= 0, sel(F_, b) < p['nst'], sel(S_, b) >= 0, sel(S_, b) < p['nst'])
    ok = lambda k: z3.And(x_(k) >= -p['nbl'], x_(k) < p['nbl'], exists(B(k)), to(k) != ST, to(k) != fr(k),
                          z3.Implies(k > K, z3.And(to(k) != to(K), to(k) != fr(K))))
    c.E.elem_facts['idx'] = (idx, ok)
    c.E.elem_facts['bl'] = (bl, exists)
    c.assume(z3.And(K >= 0, K < p['nidx'], ok(K), ST >= 0, ST < p['nst']))
    p['B'], p['F'], p['S'] = z3.Ints('B F S')
    c.assume(z3.And(p['B'] == B(K), p['F'] == sel(F_, B(K)), p['S'] == sel(S_, B(K))))
    return [Ptr('idx'), Ptr('bl'), Ptr('uvw'), Ptr('st')]


def idx_signed(idx, k):
    e = sel(idx.el.t, k)
    if idx.shape.elem.rep == 's':
        return e
    if e.sort() == z3.IntSort():
        return z3.If(e >= 1 << 31, e - (1 << 32), e)
    return z3.BV2Int(e, True)


def post_split(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    st = o.st.mem['st'].cells[16].el.t
    n = o.st.mem['st'].cells
    out = [('shape of the result', z3.And(zi(n[0].u) == p['nst'], zi(n[8].u) == 3))]
    for j, w in enumerate('uvw'):
        out += [('%s of every baseline used is the difference of its stations' % w, sel(st, 3 * p['S'] + j) - sel(st, 3 * p['F'] + j) == sel(p['uvw'], 3 * p['B'] + j)),
                ('%s of a reference station is zero' % w, sel(st, 3 * p['ST'] + j) == 0)]
    return out


def t_split(lc, c):
    p = c.p
    out = []
    pos = lambda x: zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    for nm in lc.arrs:
        if lc.arrs[nm](lc.entry.st, lc.entry.regs).sort() != AR:
            continue
        for j in range(3):
            out.append(('T:zero%d(%s)' % (j, nm), lambda v, nm=nm, j=j: sel(v.arr(nm), 3 * p['ST'] + j) == 0))
            for x in lc.lv:
                if lc.lv[x].kind == 'ptr':
                    out.append(('T:fill%d(%s,%s)' % (j, nm, x), lambda v, x=x, nm=nm, j=j: z3.Implies(pos(v.v(x)) > 3 * p['ST'] + j, sel(v.arr(nm), 3 * p['ST'] + j) == 0)))
                if lc.lv[x].kind in ('int', 'cell'):
                    out.append(('T:step%d(%s,%s)' % (j, nm, x), lambda v, x=x, nm=nm, j=j: z3.Implies(pos(v.v(x)) > p['K'], sel(v.arr(nm), 3 * p['S'] + j) - sel(v.arr(nm), 3 * p['F'] + j) == sel(p['uvw'], 3 * p['B'] + j))))
    return out


# ---- rotation
def matrix(st, ptr, n, m, data, E):
    q = E.norm(st, ptr)
    base = q.path[0] if q.path else 0
    for off, v in ((0, n), (8, m), (16, 1)):
        E.store(st, Ptr(q.root, (base + off,)), IV.c(64, v), INT[64] if isinstance(INT, dict) else Ty('int', 64))
    E.store(st, Ptr(q.root, (base + 40,)), data, PTR)


def data_of(E, st, ptr):
    q = E.norm(st, ptr)
    base = q.path[0] if q.path else 0
    return E.load(st, Ptr(q.root, (base + 40,)), PTR)


def c_ctor(E, st, a, i):
    E.oblige(st, z3.And(zi(a[1].u) == 3, zi(a[2].u) == 3), 'three by three')
    matrix(st, a[0], 3, 3, Ptr('blank'), E)


def c_fill(E, st, a, i):
    d = E.norm(st, a[1]).root
    E.oblige(st, z3.BoolVal(d in ('from', 'to')), 'direction')
    matrix(st, a[0], 3, 3, Ptr('euler_' + d), E)


def c_transpose(E, st, a, i):
    d = data_of(E, st, a[1])
    E.oblige(st, z3.BoolVal(d.root == 'euler_to'), 'transposes the matrix of the new direction')
    matrix(st, a[0], 3, 3, Ptr('euler_to_T'), E)


def c_product(E, st, a, i):
    x, y = data_of(E, st, a[1]), data_of(E, st, a[2])
    E.oblige(st, z3.BoolVal(x.root == 'euler_to_T' and y.root == 'euler_from'), 'from the old direction to the new one')
    matrix(st, a[0], 3, 3, Ptr('R', (0, 0, 0)), E)


ROT = {r'^casacore::Matrix<double>::Matrix\(unsigned long, unsigned long\)': c_ctor, r'fillEulerMatrix\(': c_fill, r'casacore::transpose<double>\(': c_transpose,
       r'casacore::product<double>\(': c_product, r'~(Matrix|Array3|shared_ptr|__shared_ptr|__shared_count)\(': lambda E, st, a, i: None}


def pre_rotate(c):
    p = c.p
    a, b = c.obj('from', SStruct({0: F8, 8: F8}, 16)), c.obj('to', SStruct({0: F8, 8: F8}, 16))
    n = c.u('n', 64)
    c.assume(p['n'] < BIG)
    u = c.arr('uvw', F8, 3 * p['n'])
    c.arr('R', F8, 9)
    for x in ('blank', 'euler_from', 'euler_to', 'euler_to_T'):
        c.st0.mem[x] = Obj(x, {}, None, 'mem')
    p['J'] = z3.Int('J')
    c.assume(z3.And(p['J'] >= 0, p['J'] < p['n']))
    p['u0'] = p['uvw'].el.t
    r = p['R'].el.t
    p['res'] = []
    for k in range(3):
        x = z3.Real('rotated%d' % k)
        c.assume(x == z3.Sum(*[sel(r, k + 3 * m) * sel(p['u0'], 3 * p['J'] + m) for m in range(3)]))
        p['res'].append(x)
    return [a, b, n, u]


def post_rotate(c, o):
    if o.threw:
        return [('never throws', False)]
    t = o.st.mem['uvw'].cells[0].el.t
    return [('%s of every station is rotated' % w, sel(t, 3 * c.p['J'] + k) == c.p['res'][k]) for k, w in enumerate('uvw')]


def t_rotate(lc, c):
    p = c.p
    out = []
    for nm in lc.arrs:
        if lc.arrs[nm](lc.entry.st, lc.entry.regs).sort() != AR:
            continue
        for x in lc.lv:
            if lc.lv[x].kind not in ('int', 'cell', 'ptr'):
                continue
            pos = lambda v: zi(v.path[-2]) if isinstance(v, Ptr) else zi(v)
            for f in (1, 3):
                out.append(('T:multiple(%s,%d)' % (x, f), lambda v, x=x, f=f: pos(v.v(x)) <= 3 * p['n'] if f == 3 else None))
                for k in range(3):
                    out.append(('T:rot%d(%s,%s,%d)' % (k, nm, x, f), lambda v, x=x, nm=nm, k=k, f=f: sel(v.arr(nm), 3 * p['J'] + k) == z3.If(pos(v.v(x)) > f * p['J'], p['res'][k], sel(p['u0'], 3 * p['J'] + k))))
    return out


def pre_euler(c):
    d = c.obj('d', SStruct({0: F8, 8: F8}, 16))
    m = c.arr('M', F8, 9)
    c.st0.mem['mat'] = Obj('mat', {0: IV.c(64, 3), 8: IV.c(64, 3), 16: IV.c(64, 1), 40: m}, None, 'mem')
    n = c.p['d']
    ra, dec = n.f[0].t, n.f[8].t
    for k, x in (('sr', sin(ra)), ('cr', cos(ra)), ('sd', sin(dec)), ('cd', cos(dec))):
        c.p[k] = z3.Real(k)
        c.assume(c.p[k] == x)
    return [Ptr('mat'), d]


def post_euler(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    sr, cr, sd, cd = (p[k] for k in ('sr', 'cr', 'sd', 'cd'))
    t = o.st.mem['M'].cells[0].el.t
    M = lambda r, k: sel(t, r + 3 * k)
    want = {(0, 0): cr, (1, 0): -sr, (2, 0): z3.RealVal(0), (0, 1): -sr * sd, (1, 1): -cr * sd, (2, 1): cd, (0, 2): sr * cd, (1, 2): cr * cd, (2, 2): sd}
    out = [('element %d,%d' % rc, M(*rc) == w) for rc, w in want.items()]
    return out


# ---- order of the baselines
def pre_setup(c):
    p = c.p
    p['nbl'] = z3.Int('nbl')
    nant = c.u('nant', 32)
    c.assume(z3.And(p['nbl'] >= 0, p['nbl'] < BIG, p['nant'] < BIG))
    inst = lambda t: lambda k: z3.And(sel(t, k) >= 0, sel(t, k) < p['nant'])
    for nm in ('a1', 'a2'):
        v = VecN(VS, p['nbl'], named_node(VS, 0, nm).el)
        c.st0.mem[nm] = Obj(nm, {0: v}, None, 'mem')
        c.E.elem_facts[nm] = (v, inst(v.el.t))
        p[nm] = v.el.t
    p['K'], p['L'] = z3.Ints('K L')
    c.assume(z3.And(p['K'] >= 0, p['L'] > p['K']))
    return [c.out('out'), nant, Ptr('a1'), Ptr('a2')]


def of(p):
    B = lambda x: z3.If(x < 0, -x - 1, x)
    to = lambda x: z3.If(x < 0, sel(p['a1'], B(x)), sel(p['a2'], B(x)))
    fr = lambda x: z3.If(x < 0, sel(p['a2'], B(x)), sel(p['a1'], B(x)))
    return B, to, fr


def facts_setup(p, t, n):
    B, to, fr = of(p)
    K, L = sel(t, p['K']), sel(t, p['L'])
    return [('baseline exists', z3.Implies(p['K'] < n, z3.And(K >= -p['nbl'], K < p['nbl']))),
            ('derives a station from another one', z3.Implies(p['K'] < n, to(K) != fr(K))),
            ('no station is derived twice', z3.Implies(p['L'] < n, to(L) != to(K))),
            ('no station is derived after it was used', z3.Implies(p['L'] < n, to(L) != fr(K)))]


def post_setup(c, o):
    if o.threw:
        return [('never throws', False)]
    v = o.st.mem['out'].cells[0]
    return facts_setup(c.p, v.el.t, zi(v.len))


def t_setup(lc, c):
    p = c.p
    B, to, fr = of(p)
    out = []
    AI = z3.ArraySort(I, I)
    names = {nm: lc.arrs[nm](lc.entry.st, lc.entry.regs).sort() for nm in lc.arrs}
    km = z3.Int('k!m')
    true = lambda b: b != 0 if b.sort() == I else b
    lens = [x for x in lc.lv if lc.lv[x].kind == 'len']
    if not lens:  # a loop that only looks for a station: arrays of bytes that it reads
        for o, ob in lc.entry.st.mem.items():
            for off, n in ob.cells.items():
                if isinstance(n, VecN) and isinstance(n.el, StructN) and list(n.el.f) == [0] and isinstance(n.el.f[0], Leaf) and n.shape.elem.size == 1:
                    for x in lc.lv:
                        if lc.lv[x].kind in ('int', 'cell'):
                            out.append(('T:first(%s,%s)' % (o, x), lambda v, x=x, t=n.el.f[0].t: z3.Implies(zi(v.v(x)) > 0, true(sel(t, 0)))))
    for kn in names:
        # members of a group are known stations
        for nm in names:
            if nm == kn or names[nm] != AI:
                continue
            for x in lens:
                out.append(('T:members(%s,%s,%s)' % (nm, x, kn), lambda v, x=x, nm=nm, kn=kn: z3.ForAll([km], z3.Implies(z3.And(km >= 0, km < zi(v.v(x))), true(sel(v.arr(kn), sel(v.arr(nm), km)))), patterns=[sel(v.arr(nm), km)] if z3.is_const(v.arr(nm)) else [])))
        for x in lc.lv:
            if lc.lv[x].kind in ('int', 'cell'):
                out.append(('T:first(%s,%s)' % (kn, x), lambda v, x=x, kn=kn: z3.Implies(zi(v.v(x)) > 0, true(sel(v.arr(kn), 0)))))
    for x in lens:
        for nm, so in names.items():
            if so != AI:
                continue
            for k in range(4):
                out.append(('T:fact%d(%s,%s)' % (k, nm, x), lambda v, x=x, nm=nm, k=k: facts_setup(p, v.arr(nm), zi(v.v(x)))[k][1]))
            for kn, so2 in names.items():
                if kn == nm:
                    continue
                for w, f in (('to', to), ('from', fr)):
                    def g(v, x=x, nm=nm, kn=kn, f=f):
                        b = sel(v.arr(kn), f(sel(v.arr(nm), p['K'])))
                        return z3.Implies(p['K'] < zi(v.v(x)), b != (0 if b.sort() == I else z3.BitVecVal(0, b.sort()) if z3.is_bv(b) else False))
                    out.append(('T:known-%s(%s,%s,%s)' % (w, nm, x, kn), g))
    return out


def targets(thorough):
    T = []

    def add(name, fn, pre, post, **kw):
        kw.setdefault('timeout', 30000)
        T.append(('simulator', Target(name, fn, pre, post, **kw)))
    add('split', 'drv_split', pre_split, post_split, templates=[t_split], budget=500)
    add('rotate', 'drv_rotate', pre_rotate, post_rotate, contracts=ROT, templates=[t_rotate], budget=300, nl=True)
    add('euler', 'drv_euler', pre_euler, post_euler, nl=True)
    return T
