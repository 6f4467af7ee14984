"""Sky model prediction (base/Simulator.cc, PointSource.cc, GaussianSource.cc, sky_model/Patch.cc)."""
from unit import Target
from specs import *
from engine import Obj
from irparse import INT, PTR, Ty
from unit import named_node
from stdmodels import uf
from irparse import Unsupported
from fractions import Fraction
import math, os, re

UNITS = {'simulator': 'simulator.cc'}
NATIVE = 'P22.cc'
CXXFLAGS = ['-fno-access-control']
SEARCH_SECS = 8


def PREPARE(work, repo):
    """PhaseShift::fillEulerMatrix, copied from steps/PhaseShift.cc"""
    s = open(os.path.join(repo, 'steps/PhaseShift.cc')).read()
    m = re.search(r'\nvoid PhaseShift::fillEulerMatrix\(', s)
    if not m:
        raise RuntimeError('PhaseShift::fillEulerMatrix not found')
    i = s.index('{', m.start())
    depth, j = 0, i
    while True:
        depth += {'{': 1, '}': -1}.get(s[j], 0)
        j += 1
        if depth == 0:
            break
    with open(os.path.join(work, 'fillEulerMatrix.inc'), 'w') as f:
        f.write('namespace dp3::steps {\n' + s[m.start():j] + '\n}\n')
    return ['-I', work, '-I', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]


BOUND = ('Simulator::visit of a point source is proved for intensity only without smearing in the quick tier (the other combinations of smearing and all Stokes parameters are attempted in the thorough tier '
         'within a time budget); visit of a Gaussian source, Patch, the GaussianSource and Stokes setters are not under contract. All of these are run natively on generated models '
         '(up to 6 stations, 4 channels, 8 baselines, 3 sources, every combination of smearing and Stokes) against the measurement equation.')
ASSUMPTIONS = ['RowStart(p) = p * channels is abstracted by its linear consequences (rows are consecutive and do not overlap).',
               'casacore::Cube::operator() addresses the element of a column-major array (the contract used; the native runs execute the stand-in).',
               'The terms scaled_ncp_uvw[0] = 0 (precondition stated in the source; all callers pass 0).',
               'At least one channel (an empty vector is addressed otherwise).',
               'Baselines refer to existing stations.',
               'sin, cos, pow, log10, exp are uninterpreted; float and double arithmetic is that of the real numbers.']

DBL = Ty('fp', 'double')
F8, U8, B1 = SFp(8), SInt(64), SInt(8)
AR = z3.ArraySort(I, R)
VD = SVec(F8, 8)
CD = SStruct({0: F8, 8: F8}, 16)
CUBE = SVec(SStruct({0: SVec(CD, 16)}, 24), 24)
BLS = SVec(SStruct({0: U8, 8: U8}, 16), 16)
STOKES = SStruct({0: F8, 8: F8, 16: F8, 24: F8}, 32)
DIR = SStruct({0: F8, 8: F8}, 16)
sin, cos, Pow, Log10, Exp = uf('sin'), uf('cos'), uf('pow', 2), uf('log10'), uf('exp')
Sinc = z3.Function('Sinc', R, R)
Row = z3.Function('RowStart', I, I)  # p -> p * number of channels
CINV = z3.RealVal(str(Fraction(repr(2 * math.pi / 299792458.0))))
LIGHT = z3.RealVal('299792458')
BIG = 1 << 40
Poly = SpecFn('Poly', [AR, R, I, I], R, lambda t, x, j, n: z3.If(j >= n, z3.RealVal(0), Poly(t, x, j + 1, n) * x + sel(t, j)))


# ---- components
def component(c, name='src', gauss=False):
    p = c.p
    p['nt'] = z3.Int('n_terms')
    c.assume(z3.And(p['nt'] >= 0, p['nt'] < BIG))
    t = named_node(VD, 0, 'terms')
    p['terms'] = t.el.t
    for x in ('ra', 'dec', 'I', 'Q', 'U', 'V', 'ref', 'frac', 'ang', 'rm', 'pa', 'maj', 'min'):
        p['s_' + x] = z3.Real('s_' + x)
    for x in ('has_rm', 'log', 'absolute'):
        p[x] = z3.Bool(x)
    bit = lambda b: IV(8, u=z3.If(b, z3.IntVal(1), z3.IntVal(0)))
    cells = {8: FV(p['s_ra'], 8), 16: FV(p['s_dec'], 8), 24: FV(p['s_I'], 8), 32: FV(p['s_Q'], 8), 40: FV(p['s_U'], 8), 48: FV(p['s_V'], 8), 56: FV(p['s_ref'], 8),
             64: VecN(VD, p['nt'], t.el), 88: FV(p['s_frac'], 8), 96: FV(p['s_ang'], 8), 104: FV(p['s_rm'], 8), 112: bit(p['has_rm']), 113: bit(p['log'])}
    if gauss:
        cells.update({120: FV(p['s_pa'], 8), 128: bit(p['absolute']), 136: FV(p['s_maj'], 8), 144: FV(p['s_min'], 8)})
    cells[0] = Ptr('vtable', (0,))
    c.st0.mem['vtable'] = Obj('vtable', {16: FnPtr('_ZNK3dp34base11PointSource9directionEv')}, None, 'mem')
    c.st0.mem[name] = Obj(name, cells, None, 'mem')
    c.ptr[name] = Ptr(name)
    return Ptr(name)


def pre_stokes(c):
    r = [component(c), c.real('f'), c.out('out')]
    c.assume(z3.And(c.p['f'] > 0, c.p['s_ref'] > 0))
    return r


def post_stokes(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    f, ref, n = p['f'], p['s_ref'], p['nt']
    base, x = Log10(f) - Log10(ref), f / ref - 1
    pl = Poly(p['terms'], base, 0, n)
    g = lambda k: o.cell('out', k).r
    IL = p['s_I'] * Pow(10, base * pl)
    IP = p['s_I'] + Poly(p['terms'], x, 0, n) * x
    lam = LIGHT / f
    chi = 2 * (p['s_ang'] + p['s_rm'] * lam * lam)
    return [('I without spectral terms', z3.Implies(n == 0, g(0) == p['s_I'])),
            ('I with a logarithmic spectral polynomial', z3.Implies(z3.And(n > 0, p['log']), g(0) == IL)),
            ('I with an ordinary spectral polynomial', z3.Implies(z3.And(n > 0, z3.Not(p['log'])), g(0) == IP)),
            ('Q', g(8) == z3.If(p['has_rm'], g(0) * p['s_frac'] * cos(chi), p['s_Q'])),
            ('U', g(16) == z3.If(p['has_rm'], g(0) * p['s_frac'] * sin(chi), p['s_U'])), ('V', g(24) == p['s_V'])]


def t_stokes(lc, c):
    p = c.p
    n, f, ref = p['nt'], p['f'], p['s_ref']
    pos = lambda x: zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    out = []
    for x in lc.lv:
        if lc.lv[x].kind not in ('ptr', 'int', 'cell'):
            continue
        for r, g in lc.reals.items():
            for nm, b in (('log', Log10(f) - Log10(ref)), ('lin', f / ref - 1)):
                out.append(('T:poly %s(%s,%s)' % (nm, r, x), lambda v, g=g, x=x, b=b: z3.And(pos(v.v(x)) >= 0, pos(v.v(x)) <= n, g(v.st, v.regs) == Poly(p['terms'], b, pos(v.v(x)), n))))
    return out


def pre_lmn(c):
    a, b = c.obj('a', DIR), c.obj('b', DIR)
    return [a, b, c.arr('lmn', F8, 3)]


def post_lmn(c, o):
    if o.threw:
        return [('never throws', False)]
    A_, D_ = c.p['a'].f, c.p['b'].f
    da = D_[0].t - A_[0].t
    s0, c0, s1, c1 = sin(A_[8].t), cos(A_[8].t), sin(D_[8].t), cos(D_[8].t)
    g = lambda k: sel(o.st.mem['lmn'].cells[0].el.t, k)
    return [('l', g(0) == c1 * sin(da)), ('m', g(1) == s1 * c0 - c1 * s0 * cos(da)), ('n', g(2) == s1 * s0 + c1 * c0 * cos(da))]


# ---- phases of the stations
def rows(c, nst, nch, ln):
    """RowStart(p) = p * nch: what linear reasoning needs of it"""
    q = z3.Int('q!r')
    c.assume(Row(0) == 0)
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nst), z3.And(Row(q) >= 0, Row(q) + nch <= ln, Row(q + 1) == Row(q) + nch)), patterns=[Row(q)]))
    c.assume(Row(nst) == ln)


def row_order(c, S):
    """rows before and after row S"""
    q, nch = z3.Int('q!o'), c.p['nch']
    c.assume(z3.ForAll([q], z3.And(z3.Implies(q > S, Row(q) >= Row(S) + nch), z3.Implies(q < S, Row(q) + nch <= Row(S))), patterns=[Row(q)]))


def pre_phases(c):
    p = c.p
    nst, nch = c.u('nst', 64), c.u('nch', 64)
    c.assume(z3.And(p['nst'] < BIG, p['nch'] < BIG, p['nch'] >= 1))
    p['ln'] = z3.Int('n_values')
    c.assume(z3.And(p['ln'] >= 0, p['ln'] < 1 << 58))
    rows(c, p['nst'], p['nch'], p['ln'])
    lmn, ncp = c.arr('lmn', F8, 3), None
    u = named_node(VD, 0, 'uvw')
    p['uvw'] = u.el.t
    c.st0.mem['uvw'] = Obj('uvw', {0: IV(64, u=p['nst']), 8: IV.c(64, 3), 16: VecN(VD, 3 * p['nst'], u.el)}, None, 'mem')
    f = named_node(VD, 0, 'freq')
    p['freq'] = f.el.t
    c.st0.mem['freq'] = Obj('freq', {0: VecN(VD, p['nch'], f.el)}, None, 'mem')
    a, b = named_node(VD, 0, 're'), named_node(VD, 0, 'im')
    c.st0.mem['shift'] = Obj('shift', {0: VecN(VD, p['ln'], a.el), 24: VecN(VD, p['ln'], b.el), 48: IV(64, u=p['nch'])}, None, 'mem')
    for x in ('n0', 'n1', 'n2'):
        p[x] = z3.Real('ncp_' + x)
    c.assume(p['n0'] == 0)
    c.st0.mem['ncp'] = Obj('ncp', {0: FV(p['n0'], 8), 8: FV(p['n1'], 8), 16: FV(p['n2'], 8)}, None, 'mem')
    for x in ('sp', 'er'):
        nd = named_node(VD, 0, x)
        c.st0.mem[x] = Obj(x, {0: VecN(VD, p['nst'], nd.el)}, None, 'mem')
    p['ST'], p['CH'] = z3.Ints('ST CH')
    c.assume(z3.And(p['ST'] >= 0, p['ST'] < p['nst'], p['CH'] >= 0, p['CH'] < p['nch']))
    row_order(c, p['ST'])
    u_, v_, w_ = (sel(p['uvw'], 3 * p['ST'] + j) for j in range(3))
    l, m, n = (sel(p['lmn'].el.t, j) for j in range(3))
    p['SP'] = CINV * (u_ * l + v_ * m + w_ * (n - 1))
    p['ER'] = CINV * (l * (v_ * p['n2'] - w_ * p['n1']) - m * u_ * p['n2'] + (n - 1) * u_ * p['n1'])
    return [nst, nch, lmn, Ptr('uvw'), Ptr('freq'), Ptr('shift'), Ptr('ncp'), Ptr('sp'), Ptr('er')]


def post_phases(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    m = o.st.mem
    g = lambda r, f, i: sel(m[r].cells[f].el.t, i)
    at = Row(p['ST']) + p['CH']
    x = g('sp', 0, p['ST'])
    return [('phase of the station', x == p['SP']), ('change of the phase with the rotation of the Earth', g('er', 0, p['ST']) == p['ER']),
            ('cosine for the channel', g('shift', 0, at) == cos(x * sel(p['freq'], p['CH']))), ('sine for the channel', g('shift', 24, at) == sin(x * sel(p['freq'], p['CH'])))]


def outer_ints(lc):
    seen, out = set(), []
    for x, v in lc.entry.regs.items():
        if isinstance(v, IV) and v.w == 64 and v.const() is None and x not in lc.lv:
            e = zi(v.u)
            if z3.is_const(e) and e.get_id() not in seen and str(e) not in ('nst', 'nch', 'nbl', 'n_values'):
                seen.add(e.get_id())
                out.append((x, e))
    return out


def t_phases(lc, c):
    p = c.p
    out = []
    ST, CH, nch = p['ST'], p['CH'], p['nch']
    at = Row(ST) + CH
    pos = lambda x: zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    xs = [x for x in lc.lv if lc.lv[x].kind in ('int', 'ptr', 'cell')]
    o_ = outer_ints(lc)
    sp = sel(lc.entry.st.mem['sp'].cells[0].el.t, ST)
    for x in xs:
        for y in xs:
            if x != y and lc.lv[x].kind in ('int', 'cell') and lc.lv[y].kind in ('ptr', 'cell'):
                out.append(('T:row(%s,%s)' % (x, y), lambda v, x=x, y=y: pos(v.v(y)) == Row(pos(v.v(x)))))
        for nm in lc.arrs:
            g = lc.arrs[nm](lc.entry.st, lc.entry.regs)
            if g.sort() != AR:
                continue
            mine = {'sp': ('SP',), 'er': ('ER',), 'shift': ('cos', 'sin')}.get(nm.split('+')[0], ('terms',))
            for what, val, i in (('SP', p['SP'], ST), ('ER', p['ER'], ST)):
                if what not in mine:
                    continue
                out.append(('T:%s(%s,%s)' % (what, nm, x), lambda v, x=x, nm=nm, val=val, i=i: z3.Implies(pos(v.v(x)) > i, sel(v.arr(nm), i) == val)))
            # all channels of the station done
            for what, fn in (('cos', cos), ('sin', sin)):
                if what not in mine or lc.lv[x].kind == 'ptr':
                    continue
                out.append(('T:%s(%s,%s)' % (what, nm, x), lambda v, x=x, nm=nm, fn=fn: z3.Implies(pos(v.v(x)) > ST, sel(v.arr(nm), at) == fn(sp * sel(p['freq'], CH)))))
            for ox, e in o_:
                if lc.lv[x].kind == 'ptr':
                    continue
                if 'terms' in mine:
                    out.append(('T:terms(%s,%s,%s)' % (nm, x, ox), lambda v, x=x, nm=nm, e=e: z3.Implies(z3.And(e == ST, pos(v.v(x)) > CH), sel(v.arr(nm), CH) == sp * sel(p['freq'], CH))))
                for what, fn in (('cos', cos), ('sin', sin)):
                    if what not in mine:
                        continue
                    out.append(('T:%s(%s,%s,%s)' % (what, nm, x, ox), lambda v, x=x, nm=nm, e=e, fn=fn: z3.Implies(z3.Or(e > ST, z3.And(e == ST, pos(v.v(x)) > CH)), sel(v.arr(nm), at) == fn(sp * sel(p['freq'], CH)))))
    return out


# ---- spectrum of a component
StI, StQ, StU, StV = (z3.Function('Stokes' + x, R, R) for x in 'IQUV')


def c_stokes(E, st, a, i):
    """returns a Stokes object"""
    f = a[-1].r
    vals = [fn(f) for fn in (StI, StQ, StU, StV)]
    for k, v in enumerate(vals):
        E.store(st, E.padd(st, a[0], 8 * k), FV(v, 8), DBL)
    return None


def pre_spectrum(ionly):
    def f(c):
        p = c.p
        src = component(c)
        nch = c.u('nch', 64)
        c.assume(p['nch'] < BIG)
        f_ = named_node(VD, 0, 'freq')
        p['freq'] = f_.el.t
        c.st0.mem['freq'] = Obj('freq', {0: VecN(VD, p['nch'], f_.el)}, None, 'mem')
        nc = 1 if ionly else 4
        a, b = named_node(VD, 0, 're'), named_node(VD, 0, 'im')
        c.st0.mem['out'] = Obj('out', {0: VecN(VD, nc * p['nch'], a.el), 24: VecN(VD, nc * p['nch'], b.el), 48: IV.c(64, nc)}, None, 'mem')
        p['CH'] = z3.Int('CH')
        c.assume(z3.And(p['CH'] >= 0, p['CH'] < p['nch']))
        return [src, nch, Ptr('freq'), Ptr('out'), IV.c(1, int(ionly))]
    return f


def corr_values(p, ionly):
    f = sel(p['freq'], p['CH'])
    i, q, u, v = StI(f), StQ(f), StU(f), StV(f)
    return [(i, z3.RealVal(0))] if ionly else [(i + q, z3.RealVal(0)), (u, v), (u, -v), (i - q, z3.RealVal(0))]


def post_spectrum(ionly):
    def f(c, o):
        if o.threw:
            return [('never throws', False)]
        out = []
        cs = o.st.mem['out'].cells
        for k, (re_, im_) in enumerate(corr_values(c.p, ionly)):
            at = (1 if ionly else 4) * c.p['CH'] + k
            out += [('real part of correlation %d' % k, sel(cs[0].el.t, at) == re_), ('imaginary part of correlation %d' % k, sel(cs[24].el.t, at) == im_)]
        return out
    return f


def t_spectrum(ionly):
    def f(lc, c):
        out = []
        p = c.p
        for x in lc.lv:
            if lc.lv[x].kind not in ('int', 'cell'):
                continue
            for nm in lc.arrs:
                if lc.arrs[nm](lc.entry.st, lc.entry.regs).sort() != AR:
                    continue
                for k, (re_, im_) in enumerate(corr_values(p, ionly)):
                    at = (1 if ionly else 4) * p['CH'] + k
                    for w, val in (('re', re_), ('im', im_)):
                        out.append(('T:%s%d(%s,%s)' % (w, k, nm, x), lambda v, x=x, nm=nm, val=val, at=at: z3.Implies(zi(v.v(x)) > p['CH'], sel(v.arr(nm), at) == val)))
        return out
    return f


# ---- visibilities
def simulator(c, ionly, time, fsm, gauss=False):
    p = c.p
    src = component(c, gauss=gauss)
    for x in ('nst', 'nbl', 'nch'):
        p[x] = z3.Int(x)
        c.assume(z3.And(p[x] >= 0, p[x] < BIG))
    c.assume(p['nch'] >= 1)
    p['ln'] = z3.Int('n_values')
    c.assume(z3.And(p['ln'] >= 0, p['ln'] < 1 << 58))
    p['time'], p['fsm'] = time, fsm
    bit = lambda b: IV.c(8, int(b))
    nc = p['nc'] = 1 if ionly else 4
    nd = lambda nm, n: VecN(VD, n, named_node(VD, 0, nm).el)
    b = named_node(BLS, 0, 'bls')
    p['bls'] = VecN(BLS, p['nbl'], b.el)
    F_, S_ = b.el.f[0].t, b.el.f[8].t
    exists = lambda k: z3.And(*[z3.And(sel(x, k) >= 0, sel(x, k) < p['nst']) for x in (F_, S_)])
    c.E.elem_facts['s'] = (p['bls'], exists)
    cells = {8: FV(z3.Real('ref_ra'), 8), 16: FV(z3.Real('ref_dec'), 8), 24: IV(64, u=p['nst']), 32: IV(64, u=p['nbl']), 40: IV(64, u=p['nch']), 48: bit(p['time']), 49: bit(p['fsm']), 50: IV.c(8, int(ionly)),
             56: p['bls'], 80: nd('freq', p['nch']), 104: nd('width', p['nch']), 128: FV(z3.Real('ncp0'), 8), 136: FV(z3.Real('ncp1'), 8), 144: FV(z3.Real('ncp2'), 8), 152: Ptr('uvw'),
             208: nd('sp', p['nst']), 232: nd('er', p['nst']), 256: nd('sre', p['ln']), 280: nd('sim', p['ln']), 304: IV(64, u=p['nch']), 312: nd('cre', nc * p['nch']), 336: nd('cim', nc * p['nch']), 360: IV.c(64, nc)}
    c.st0.mem['s'] = Obj('s', cells, None, 'mem')
    c.st0.mem['uvw'] = Obj('uvw', {}, None, 'mem')
    buf = c.obj('buf', CUBE)
    n = c.p['buf']
    c.assume(zi(n.len) == p['nbl'])
    p['BL'], p['CH'] = z3.Ints('BL CH')
    BL, CH = p['BL'], p['CH']
    c.assume(z3.And(BL >= 0, BL < p['nbl'], CH >= 0, CH < p['nch'], exists(BL), sel(n.el.f[0].len, BL) == nc * p['nch']))
    p['P'], p['Q'] = z3.Ints('P Q')
    c.assume(z3.And(p['P'] == sel(F_, BL), p['Q'] == sel(S_, BL)))
    for x in ('CP', 'SP', 'CQ', 'SQ', 'QR', 'QI', 'phP', 'phQ', 'erP', 'erQ', 'amp', 'sm1', 'sm2'):
        p[x] = z3.Real('v_' + x)
    # e^{i phase} of station q times the conjugate of that of station p
    c.assume(z3.And(p['QR'] == p['CP'] * p['CQ'] + p['SP'] * p['SQ'], p['QI'] == p['CP'] * p['SQ'] - p['CQ'] * p['SP']))
    fr, wd = sel(cells[80].el.t, CH), sel(cells[104].el.t, CH)
    p['sm0'] = p['amp'] if gauss else z3.RealVal(1)
    p['sint'], p['sinf'] = Sinc(z3.RealVal('1/2') * (p['erQ'] - p['erP']) * fr), Sinc(z3.RealVal('1/2') * (p['phQ'] - p['phP']) * wd)
    c.assume(p['sm1'] == (p['sm0'] * p['sint'] if time else p['sm0']))
    c.assume(p['sm2'] == (p['sm1'] * p['sinf'] if fsm else p['sm1']))
    p['new'], p['old'], p['T'] = [], [], []
    for kk in range(nc):
        for comp in range(2):
            p['RE%d' % kk], p['IM%d' % kk] = z3.Real('RE%d' % kk), z3.Real('IM%d' % kk)
            re_, im_ = p['RE%d' % kk], p['IM%d' % kk]
            T = z3.Real('T%d_%d' % (kk, comp))
            c.assume(T == (p['QR'] * re_ - p['QI'] * im_ if comp == 0 else p['QR'] * im_ + p['QI'] * re_))
            old = sel(sel(n.el.f[0].el.f[8 * comp].t, BL), nc * CH + kk)
            p['T'].append(T)
            p['old'].append(old)
            p['new'].append(z3.If(p['P'] == p['Q'], old, old + p['sm2'] * T))
    return [Ptr('s'), src]


def c_cube_at(E, st, a, i):
    E.oblige(st, z3.And(zi(a[1].u) == 0, zi(a[2].u) == 0), 'start of a baseline')
    E.oblige(st, z3.And(zi(a[3].u) >= 0, zi(a[3].u) < E.ctx.p['nbl']), 'baseline exists')
    st.assume(sel(E.ctx.p['buf'].el.f[0].len, zi(a[3].u)) == E.ctx.p['nc'] * E.ctx.p['nch'])  # shape of the cube
    return Ptr('buf', (0, a[3].u, 0, 0, 0))


def c_duo(which):
    def f(E, st, a, i):
        m = E.norm(st, a[0])
        base = m.path[0] if m.path else 0
        row, col = zi(a[1].u), zi(a[2].u)
        if base != 256:
            raise Unsupported('another matrix')
        E.oblige(st, z3.And(row >= 0, row < E.ctx.p['nch'], col >= 0, col < E.ctx.p['nst']), 'element of the phase matrix')
        st.assume(z3.And(Row(col) >= 0, Row(col) + E.ctx.p['nch'] <= E.ctx.p['ln']))  # Row(p) = p * nch, nst * nch values
        return Ptr(m.root, (base + which, z3.simplify(Row(col) + row), 0))
    return f


def field(E, st, p, off, what):
    q = E.norm(st, p)
    base = q.path[0] if q.path else 0
    E.oblige(st, z3.BoolVal(q.root == 's' and base == off), 'passes ' + what)


def c_lmn(E, st, a, i):
    field(E, st, a[0], 8, 'the reference direction')
    q = E.norm(st, a[1])
    E.oblige(st, z3.BoolVal(q.root == 'src' and q.path and q.path[0] == 8), 'passes the direction of the component')
    for k, x in enumerate('LMN'):
        E.store(st, E.padd(st, a[2], 8 * k), FV(z3.Real('c_' + x), 8), DBL)


def new_array(E, st, off, nm):
    o = st.mem['s']
    n = o.cells[off]
    E.set_container(st, Ptr('s', (off,)), VecN(n.shape, n.len, Leaf(n.el.shape, fresh(nm, AR))))
    return st.mem['s'].cells[off].el.t


def c_phases(E, st, a, i):
    p = E.ctx.p
    E.oblige(st, z3.And(zi(a[0].u) == p['nst'], zi(a[1].u) == p['nch']), 'passes the numbers of stations and channels')
    for k, x in enumerate('LMN'):
        E.oblige(st, E.load(st, E.padd(st, a[2], 8 * k), DBL).r == z3.Real('c_' + x), 'passes the direction cosines')
    q = E.norm(st, a[3])
    E.oblige(st, z3.BoolVal(q.root == 'uvw'), 'passes the coordinates of the stations')
    for k, off, what in ((4, 80, 'the frequencies'), (5, 256, 'the phase matrix'), (6, 128, 'the pole'), (7, 208, 'the phases'), (8, 232, 'the rotation terms')):
        field(E, st, a[k], off, what)
    re_, im_, sp, er = (new_array(E, st, off, nm) for off, nm in ((256, 'sre'), (280, 'sim'), (208, 'sp'), (232, 'er')))
    for S, C_, S_, ph, e in (('P', 'CP', 'SP', 'phP', 'erP'), ('Q', 'CQ', 'SQ', 'phQ', 'erQ')):
        at = Row(p[S]) + p['CH']
        st.assume(z3.And(sel(re_, at) == p[C_], sel(im_, at) == p[S_], sel(sp, p[S]) == p[ph], sel(er, p[S]) == p[e]))


def c_spectrum(E, st, a, i):
    p = E.ctx.p
    q = E.norm(st, a[0])
    E.oblige(st, z3.BoolVal(q.root == 'src'), 'passes the component')
    E.oblige(st, zi(a[1].u) == p['nch'], 'passes the number of channels')
    field(E, st, a[2], 80, 'the frequencies')
    field(E, st, a[3], 312, 'the spectrum')
    io = st.mem['s'].cells[50].const()
    b = a[4].b if a[4].w == 1 else zi(a[4].u) != 0
    E.oblige(st, b if io else z3.Not(b), 'passes the number of correlations')
    re_, im_ = new_array(E, st, 312, 'cre'), new_array(E, st, 336, 'cim')
    nc = 1 if io else 4
    for k in range(nc):
        st.assume(z3.And(sel(re_, nc * p['CH'] + k) == p['RE%d' % k], sel(im_, nc * p['CH'] + k) == p['IM%d' % k]))


def c_sinc(E, st, a, i):
    return FV(Sinc(a[0].r), 4)


VIS = {r'^casacore::Cube<.*>::operator\(\)\(': c_cube_at, r'DuoMatrix<double>::real\(': c_duo(0), r'DuoMatrix<double>::imag\(': c_duo(24),
       r'^dp3::base::radec2lmn\(': c_lmn, r'(^|::)phases\(unsigned long': c_phases, r'(^|::)spectrum\(dp3::base::PointSource': c_spectrum, r'(^|::)sinc\(float\)': c_sinc}


def post_visit(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    n = o.st.mem['buf'].cells[0]
    nc = len(p['new']) // 2
    out = []
    for i, w in enumerate(p['new']):
        kk, comp = divmod(i, 2)
        out.append(('%s part of correlation %d' % (('real', 'imaginary')[comp], kk), sel(sel(n.el.f[0].el.f[8 * comp].t, p['BL']), nc * p['CH'] + kk) == w))
    return out


def t_visit(lc, c):
    p = c.p
    out = []
    BL, CH = p['BL'], p['CH']
    nc = len(p['new']) // 2
    pos = lambda x: zi(x.path[-2]) if isinstance(x, Ptr) else zi(x)
    xs = [x for x in lc.lv if lc.lv[x].kind in ('int', 'cell')]
    o_ = outer_ints(lc)
    A2 = z3.ArraySort(I, AR)
    names = {nm: lc.arrs[nm](lc.entry.st, lc.entry.regs).sort() for nm in lc.arrs}
    vals = ([('sm1', p['sm1'])] if p['time'] else []) + ([('sm2', p['sm2'])] if p['fsm'] else []) + ([('sm0', p['sm0'])] if p['fsm'] or p['time'] or p['amp'] is p['sm0'] else []) + [('T%d' % i, t) for i, t in enumerate(p['T'])]
    for x in xs:
        for nm, so in names.items():
            if so == A2:
                comp = 1 if 'f8' in nm else 0
                cell = lambda v, nm, kk: sel(sel(v.arr(nm), BL), nc * CH + kk)
                for kk in range(nc):
                    new, old = p['new'][2 * kk + comp], p['old'][2 * kk + comp]
                    out.append(('T:done%d(%s,%s)' % (kk, nm, x), lambda v, x=x, nm=nm, kk=kk, new=new, old=old: cell(v, nm, kk) == z3.If(pos(v.v(x)) > BL, new, old)))
                    for ox, e in o_:
                        out.append(('T:row%d(%s,%s,%s)' % (kk, nm, x, ox), lambda v, x=x, nm=nm, kk=kk, new=new, old=old, e=e: cell(v, nm, kk) == z3.If(z3.Or(e > BL, z3.And(e == BL, pos(v.v(x)) > CH)), new, old)))
            elif so == AR and nm.startswith('buf'):  # the row of one baseline
                comp = 1 if 'f8' in nm else 0
                for kk in range(nc):
                    new, old = p['new'][2 * kk + comp], p['old'][2 * kk + comp]
                    for ox, e in o_:
                        out.append(('T:row%d(%s,%s,%s)' % (kk, nm, x, ox), lambda v, x=x, nm=nm, kk=kk, new=new, old=old, e=e: z3.Implies(e == BL, sel(v.arr(nm), nc * CH + kk) == z3.If(pos(v.v(x)) > CH, new, old))))
            elif so == AR:
                for w, val in vals:
                    for ox, e in o_:
                        out.append(('T:%s(%s,%s,%s)' % (w, nm, x, ox), lambda v, x=x, nm=nm, val=val, e=e: z3.Implies(z3.And(e == BL, pos(v.v(x)) > CH), sel(v.arr(nm), CH) == val)))
    return out


# ---- small helpers of the simulator
def pre_sinc(c):
    x = FV(z3.Real('x'), 4)
    return [x]


def post_sinc(c, o):
    x = z3.Real('x')
    small = z3.And(x < z3.RealVal('1/1000000'), x > -z3.RealVal('1/1000000'))
    return [('never throws', not o.threw), ('one at zero', z3.Implies(x == 0, o.val.r == 1)), ('sin(x) / x', z3.Implies(z3.Not(small), o.val.r * x == sin(x))),
            ('one or sin(x) / x near zero', z3.Or(o.val.r == 1, o.val.r * x == sin(x)))]


def pre_duo(c):
    p = c.p
    row, col = c.u('row', 64), c.u('col', 64)
    for x in ('nrow', 'ncol', 'ln', 'K'):
        p[x] = z3.Int(x)
    c.assume(z3.And(p['nrow'] >= 0, p['nrow'] < BIG, p['ncol'] < BIG, p['row'] < p['nrow'], p['col'] < p['ncol']))
    p['at'] = p['col'] * p['nrow']
    # length = rows * columns, and a column before the last ends before the end
    c.assume(z3.And(p['ln'] < 1 << 58, p['at'] >= 0, p['at'] + p['nrow'] <= p['ln'], p['K'] >= 0, p['K'] < p['ln']))
    a, b = named_node(VD, 0, 're'), named_node(VD, 0, 'im')
    p['re'], p['im'] = a.el.t, b.el.t
    c.st0.mem['m'] = Obj('m', {0: VecN(VD, p['ln'], a.el), 24: VecN(VD, p['ln'], b.el), 48: IV(64, u=p['nrow'])}, None, 'mem')
    return [Ptr('m'), row, col, c.real('vr'), c.real('vi')]


def post_duo(c, o):
    p = c.p
    m = o.st.mem['m'].cells
    at = p['at'] + p['row']
    return [('never throws', not o.threw), ('real element', sel(m[0].el.t, p['K']) == z3.If(p['K'] == at, p['vr'], sel(p['re'], p['K']))),
            ('imaginary element', sel(m[24].el.t, p['K']) == z3.If(p['K'] == at, p['vi'], sel(p['im'], p['K'])))]


def targets(thorough):
    T = []

    def add(name, fn, pre, post, **kw):
        kw.setdefault('timeout', 30000)
        T.append(('simulator', Target(name, fn, pre, post, **kw)))
    add('flux', 'drv_stokes', pre_stokes, post_stokes, templates=[t_stokes], about='Stokes parameters of a component at a frequency')
    add('direction-cosines', 'drv_lmn', pre_lmn, post_lmn)
    add('sinc', 'drv_sinc', pre_sinc, post_sinc)
    add('phase-matrix', 'drv_duo', pre_duo, post_duo)
    add('phases', 'drv_phases', pre_phases, post_phases, templates=[t_phases], budget=400, nl=True)
    for io in (True, False):
        nm = 'I' if io else 'all'
        add('spectrum-' + nm, 'drv_spectrum', pre_spectrum(io), post_spectrum(io), contracts={r'^dp3::base::PointSource::stokes\(double\) const': c_stokes}, templates=[t_spectrum(io)])
        for tm in (False, True):
            for fs in (False, True):
                if not (thorough or io and not tm and not fs):
                    continue
                add('point-%s%s%s' % (nm + '' if tm or fs else nm + '-plain', '-time' * tm, '-frequency' * fs), 'drv_point', lambda c, io=io, tm=tm, fs=fs: simulator(c, io, tm, fs), post_visit, contracts=VIS, templates=[t_visit], budget=3000 if thorough else 400, nl=True, soft='all')
    return T
