"""GPU kernels of the iterative diagonal solver (ddecal/gain_solvers/kernels)."""
from unit import Target
from specs import *
from props.P04 import cmul, cadd, conj
from irparse import Ty
from engine import Obj
from fractions import Fraction
import os, re

FLT = Ty('fp', 'float')

UNITS = {'cuda': 'cuda.cc'}
NATIVE = 'P21.cc'
SEARCH_SECS = 8


def PREPARE(work, repo):
    """the kernels with every launch K<<<a>>>(x) written VF_LAUNCH(K, a)(x)"""
    d = os.path.join(repo, 'ddecal/gain_solvers/kernels')
    s = open(os.path.join(d, 'IterativeDiagonal.cu')).read()
    s = re.sub(r'([\w:]+(?:<[\w:, ]*>)?)\s*<<<(.*?)>>>\s*\(', r'VF_LAUNCH(\1, \2)(', s, flags=re.S)
    with open(os.path.join(work, 'IterativeDiagonal.inc'), 'w') as f:
        f.write(s)
    return ['-I', work, '-I', d]



BOUND = 'random problems up to 300 visibilities, 302 stations and 3 directions; all threads of a launch run one after another in random order'
ASSUMPTIONS = ['floating-point values treated as reals', 'CUDA itself is trusted: complex helper functions, launches and atomicAdd have the contracts of shims/ and props/P21.py',
               'extraction: every launch K<<<grid, block, ...>>>(x) of IterativeDiagonal.cu is rewritten to VF_LAUNCH(K, grid, block, ...)(x); everything else is compiled as it is',
               'thread numbers fit 32 bits; the two stations of a baseline differ; atan2, cos and sin uninterpreted']


def mat(sz, n=4):
    f = {}
    for i in range(n):
        f[2 * sz * i] = SFp(sz)
        f[2 * sz * i + sz] = SFp(sz)
    return SStruct(f, 2 * sz * n)


CF, CD = SStruct({0: SFp(4), 4: SFp(4)}, 8), SStruct({0: SFp(8), 8: SFp(8)}, 16)
MF, MD, DF, DD = mat(4), mat(8), mat(4, 2), mat(8, 2)
U4 = SInt(32)
MAX = 1 << 30
csub = lambda a, b: (a[0] - b[0], a[1] - b[1])
norm2 = lambda a: a[0] * a[0] + a[1] * a[1]


def entries(n, sz, k=4):
    """the entries of a matrix object as pairs"""
    return [(n.f[2 * sz * i].t, n.f[2 * sz * i + sz].t) for i in range(k)]


def ops(shapes, sz, f):
    """a driver on matrices a, b and the result r"""
    def pre(c):
        args = [c.obj('ab'[i], s) for i, s in enumerate(shapes)]
        return args + [c.obj('r', MF if sz == 4 else MD)]

    def post(c, o):
        if o.threw:
            return [('never throws', False)]
        a = [entries(c.p['ab'[i]], s.size // len(s.fields), len(s.fields) // 2) for i, s in enumerate(shapes)]
        want = f(*a)
        r = []
        for i in range(4):
            re_, im = o.cell('r', 2 * sz * i), o.cell('r', 2 * sz * i + sz)
            r += [('Re %d' % i, re_.r == want[i][0]), ('Im %d' % i, im.r == want[i][1])]
        return r
    return pre, post


MUL = lambda a, b: [cadd(cmul(a[2 * (i // 2)], b[i % 2]), cmul(a[2 * (i // 2) + 1], b[2 + i % 2])) for i in range(4)]
CONJ = lambda a: [conj(a[0]), conj(a[2]), conj(a[1]), conj(a[3])]
DMUL = lambda a, b: [cmul(a[i // 2], b[i]) for i in range(4)]
OPS = [('madd', (MF, MF), 4, lambda a, b: [cadd(x, y) for x, y in zip(a, b)]), ('msub', (MF, MF), 4, lambda a, b: [csub(x, y) for x, y in zip(a, b)]),
       ('mmul', (MF, MF), 4, MUL), ('mconj', (MF,), 4, CONJ), ('dmul', (DF, MF), 4, DMUL),
       ('mmuld', (MD, MD), 8, MUL), ('mconjd', (MD,), 8, CONJ), ('dmuld', (DD, MD), 8, DMUL), ('mdouble', (MF,), 8, lambda a: a)]


# ---- one visibility
def vis(c, small=True):
    """visibility v of nv, with its stations and solutions"""
    v, nv, ns, na = c.u('v', 64), z3.Int('nv'), c.u('ns', 64), z3.Int('na')
    V, NS = c.p['v'], c.p['ns']
    c.assume(z3.And(V < nv, nv < MAX, NS >= 1, NS < MAX, na >= 1, na < MAX))
    c.p.update(nv=nv, na=na)
    pairs = c.arr('pairs', U4, 2 * nv)
    mp = c.arr('map', U4, nv)
    sol = c.arr('sol', CD, z3.Int('nsol'))
    p, m = c.p['pairs'].el.t, c.p['map'].el.t
    a1, a2, s = sel(p, 2 * V), sel(p, 2 * V + 1), sel(m, V)
    c.assume(z3.And(a1 >= 0, a1 < na, a2 >= 0, a2 < na, s >= 0, s < NS))
    c.assume(c.p['sol'].len == na * NS * 2)
    # every solution of a station lies in the table
    for a in (a1, a2):
        c.assume(z3.And(a * NS + NS <= na * NS, a * NS >= 0, a * NS < 1 << 61))
    c.p.update(a1=a1, a2=a2, s=s)
    return v, ns, pairs, mp, sol


def gains(c, a):
    n = c.p['sol'].el
    i = (a * c.p['ns'] + c.p['s']) * 2
    return [(sel(n.f[0].t, i + k), sel(n.f[8].t, i + k)) for k in range(2)]


def mats(node, i):
    return [(sel(node.f[8 * k].t, i), sel(node.f[8 * k + 4].t, i)) for k in range(4)]


def contribution(c, model=None):
    g1, g2 = gains(c, c.p['a1']), gains(c, c.p['a2'])
    m = model or mats(c.p['model'].el, c.p['v'])
    return [cmul(cmul(g1[k // 2], m[k]), conj(g2[k % 2])) for k in range(4)]


def pre_add(c):
    v, ns, pairs, mp, sol = vis(c)
    return [v, ns, pairs, mp, sol] + [c.arr(n, MF, c.p['nv']) for n in ('model', 'in', 'out')]


def post_add(sign):
    def f(c, o):
        if o.threw:
            return [('never throws', False)]
        n = o.st.mem['out'].cells[0].el
        V, j = c.p['v'], z3.Int('j!p')
        got, old, con = mats(n, V), mats(c.p['in'].el, V), contribution(c)
        r = []
        for k in range(4):
            r += [('Re %d' % k, got[k][0] == old[k][0] + sign * con[k][0]), ('Im %d' % k, got[k][1] == old[k][1] + sign * con[k][1])]
        r.append(('no other visibility is written', z3.And(*[z3.ForAll([j], z3.Implies(j != V, sel(n.f[q].t, j) == sel(c.p['out'].el.f[q].t, j))) for q in n.f])))
        return r
    return f


F4 = SFp(4)


def c_atomic(E, st, a, i):
    """atomicAdd adds to the sum kept in the ghost array acc_<name>; nothing else may touch these sums"""
    p = E.norm(st, a[0])
    E.oblige(st, z3.BoolVal(p.root in ('num', 'den')), 'atomicAdd on the numerator or denominator')
    q = Ptr('acc_' + p.root, p.path)
    E.store(st, q, FV(E.load(st, q, FLT).r + a[1].r, 4), FLT)
    return FV(fresh('atomic', R), 4)


def pre_dir(c):
    v, ns, pairs, mp, sol = vis(c)
    nd = c.u('nd', 64)
    ND, na, nv = c.p['nd'], c.p['na'], c.p['nv']
    m = c.p['map'].el.t
    c.assume(z3.And(ND >= 1, ND < MAX, nv >= 1, sel(m, 0) >= 0, sel(m, 0) <= c.p['s'], c.p['s'] < sel(m, 0) + ND))
    c.assume(c.p['a1'] != c.p['a2'])
    for a in ('a1', 'a2'):
        c.assume(z3.And(c.p[a] * ND + ND <= na * ND, c.p[a] * ND >= 0, c.p[a] * ND < 1 << 61))
    c.assume(z3.Or(c.p['a1'] * ND + ND <= c.p['a2'] * ND, c.p['a2'] * ND + ND <= c.p['a1'] * ND))
    n = na * ND * 2
    r = [v, IV(64, u=nv), nd, ns, pairs, mp, sol, c.arr('model', MF, nv), c.arr('res', MF, nv), c.arr('num', CF, n), c.arr('den', F4, n)]
    c.arr('acc_num', CF, n)
    c.arr('acc_den', F4, n)
    return r


def sums(c, res):
    """what visibility v adds to the sums of its two stations: [(numerator, denominator)] per polarization"""
    m = mats(c.p['model'].el, c.p['v'])
    out = []
    for side in (0, 1):
        g = gains(c, c.p['a1' if side else 'a2'])
        cm = DMUL(g, m if side else CONJ(m))
        d = MUL(CONJ(res) if side else res, cm)
        out.append([((d[0], d[3])[p], norm2(cm[p]) + norm2(cm[2 + p])) for p in range(2)])
    return out


def sum_posts(c, o, res):
    r = []
    rel = c.p['s'] - sel(c.p['map'].el.t, 0)
    at = [(c.p[a] * c.p['nd'] + rel) * 2 for a in ('a1', 'a2')]
    add = sums(c, res)
    n, d = o.st.mem['acc_num'].cells[0].el, o.st.mem['acc_den'].cells[0].el
    n0, d0 = c.p['acc_num'].el, c.p['acc_den'].el
    for side in (0, 1):
        for p in range(2):
            i = at[side] + p
            (re_, im), den = add[side][p]
            w = 'station %d pol %d: ' % (side + 1, p)
            r += [(w + 'Re numerator', sel(n.f[0].t, i) == sel(n0.f[0].t, i) + re_), (w + 'Im numerator', sel(n.f[4].t, i) == sel(n0.f[4].t, i) + im),
                  (w + 'denominator', sel(d.t, i) == sel(d0.t, i) + den)]
    j = z3.Int('j!p')
    other = z3.And(*[j != x + p for x in at for p in range(2)])
    r.append(('no other sum changes', z3.ForAll([j], z3.Implies(other, z3.And(sel(n.f[0].t, j) == sel(n0.f[0].t, j), sel(n.f[4].t, j) == sel(n0.f[4].t, j), sel(d.t, j) == sel(d0.t, j))))))
    nn, dd = o.st.mem['num'].cells[0].el, o.st.mem['den'].cells[0].el
    r.append(('the shared sums change by atomic additions only', z3.ForAll([j], z3.And(sel(nn.f[0].t, j) == sel(c.p['num'].el.f[0].t, j), sel(nn.f[4].t, j) == sel(c.p['num'].el.f[4].t, j), sel(dd.t, j) == sel(c.p['den'].el.t, j)))))
    return r


def post_dir(c, o):
    if o.threw:
        return [('never throws', False)]
    return sum_posts(c, o, mats(c.p['res'].el, c.p['v']))


CON = {r'^vf_atomic_add': c_atomic}


# ---- the kernels: thread `th` of block `bl`
def thread(c, n):
    """number of this thread; n threads have work"""
    c.u('bl', 32), c.u('th', 32), c.u('bd', 32)
    t = z3.Int('t')
    c.assume(t == c.p['bl'] * c.p['bd'] + c.p['th'])
    c.assume(z3.And(t < (1 << 32), c.p['bl'] * c.p['bd'] < (1 << 32), c.p['th'] < c.p['bd']))
    c.p['t'] = t
    return t


def con_thread():
    g = lambda n: (lambda E, st, a, i: IV(32, u=E.ctx.p[n]))
    return {r'^vf_block$': g('bl'), r'^vf_thread$': g('th'), r'^vf_blockdim$': g('bd')}


def pre_kdir(c):
    a = pre_dir(c)
    t = thread(c, c.p['nv'])
    c.assume(z3.Or(t >= c.p['nv'], t == c.p['v']))
    # [v nv nd ns pairs map sol model res num den] -> [nv nd ns pairs map sol model in temp num den]
    return a[1:9] + [c.arr('temp', MF, c.p['nv'])] + a[9:]


def same(o, c, name):
    """array `name` is unchanged"""
    a, b = o.st.mem[name].cells[0].el, c.p[name].el
    j = z3.Int('j!p')
    if isinstance(b, Leaf):
        return z3.ForAll([j], sel(a.t, j) == sel(b.t, j))
    return z3.ForAll([j], z3.And(*[sel(a.f[q].t, j) == sel(b.f[q].t, j) for q in b.f]))


def post_kdir(c, o):
    if o.threw:
        return [('never throws', False)]
    idle = c.p['t'] >= c.p['nv']
    r = [('a thread without a visibility writes nothing', z3.Implies(idle, z3.And(*[same(o, c, x) for x in ('temp', 'num', 'den', 'acc_num', 'acc_den')])))]
    con, res = contribution(c), mats(c.p['res'].el, c.p['v'])
    sub = [(res[k][0] + con[k][0], res[k][1] + con[k][1]) for k in range(4)]
    temp = o.st.mem['temp'].cells[0].el
    got = mats(temp, c.p['v'])
    for k in range(4):
        r += [('Re residual %d' % k, z3.Or(idle, got[k][0] == sub[k][0])), ('Im residual %d' % k, z3.Or(idle, got[k][1] == sub[k][1]))]
    j = z3.Int('j!p')
    r.append(('no other residual is written', z3.ForAll([j], z3.Implies(j != c.p['v'], z3.And(*[sel(temp.f[q].t, j) == sel(c.p['temp'].el.f[q].t, j) for q in temp.f])))))
    r += [(nm, z3.Or(idle, f)) for nm, f in sum_posts(c, o, sub)]
    return r


def pre_ksub(c):
    nd, nv, ns = c.u('nd', 64), c.u('nv', 64), c.u('ns', 64)
    ND, NV, NS, na = c.p['nd'], c.p['nv'], c.p['ns'], z3.Int('na')
    c.assume(z3.And(ND < MAX, NV < MAX, NS >= 1, NS < MAX, na >= 1, na < MAX))
    t = thread(c, NV)
    k = z3.Int('k!a')
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ND), z3.And(k * NV + NV <= ND * NV, k * NV >= 0)), patterns=[k * NV]))
    a = [nd, nv, ns, c.arr('pairs', U4, 2 * NV), c.arr('map', U4, ND * NV), c.arr('sol', CD, 2 * na * NS), c.arr('model', CF, 4 * ND * NV), c.arr('res', MF, NV)]
    p = c.p['pairs'].el.t
    a1, a2 = sel(p, 2 * t), sel(p, 2 * t + 1)
    c.p.update(a1=a1, a2=a2)
    c.elem_fact('map', lambda x: z3.And(sel(c.p['map'].el.t, x) >= 0, sel(c.p['map'].el.t, x) < NS))
    for x in (a1, a2):
        c.assume(z3.Implies(t < NV, z3.And(x >= 0, x < na, x * NS + NS <= na * NS, x * NS >= 0, x * NS < 1 << 61)))
    c.assume(ND * NV < 1 << 60)

    def taken(k, q):
        """entry q of S1 M S2^H for direction k"""
        at = k * NV + t
        s_ = sel(c.p['map'].el.t, at)
        so, mo = c.p['sol'].el, c.p['model'].el
        g = lambda x, i: (sel(so.f[0].t, (x * NS + s_) * 2 + i), sel(so.f[8].t, (x * NS + s_) * 2 + i))
        e = q // 2
        m = (sel(mo.f[0].t, 4 * at + e), sel(mo.f[4].t, 4 * at + e))
        return cmul(cmul(g(a1, e // 2), m), conj(g(a2, e % 2)))[q % 2]
    c.p['sum'] = [summed('Taken%d' % q, (lambda q: lambda k: taken(k, q))(q)) for q in range(8)]
    return a


def summed(name, term):
    f = SpecFn(name, [I], R, lambda n: z3.If(n <= 0, z3.RealVal(0), f(n - 1) + term(n - 1)))
    return f


def post_ksub(c, o):
    if o.threw:
        return [('never throws', False)]
    t, nv = c.p['t'], c.p['nv']
    n, n0 = o.st.mem['res'].cells[0].el, c.p['res'].el
    j = z3.Int('j!p')
    r = [('entry %d minus all directions' % q, z3.Implies(t < nv, sel(n.f[4 * q].t, t) == sel(n0.f[4 * q].t, t) - c.p['sum'][q](c.p['nd']))) for q in range(8)]
    r.append(('no other visibility is written', z3.ForAll([j], z3.Implies(z3.Or(j != t, t >= nv), z3.And(*[sel(n.f[q].t, j) == sel(n0.f[q].t, j) for q in n.f])))))
    return r


def t_ksub(lc, c):
    out = []
    t, nv, n0 = c.p['t'], c.p['nv'], c.p['res'].el
    for (base, _, off), (idx, get) in lc.elems.items():
        if base != 'res+0':
            continue
        for x in lc.lv:
            if lc.lv[x].kind == 'int':
                out.append(('T:sub(%s,%s)' % (off, x), lambda v, get=get, x=x, off=off: z3.And(zi(v.v(x)) >= 0, get(v.st, v.regs) == sel(n0.f[off].t, t) - c.p['sum'][off // 4](zi(v.v(x))))))
    return out


# ---- next solutions
NAN = z3.Real('CUDART_NAN')


def pre_knext(c):
    na, nd, ns = c.u('na', 32), c.u('nd', 32), c.u('ns', 32)
    NA, ND, NS = c.p['na'], c.p['nd'], c.p['ns']
    c.assume(z3.And(NA < MAX, ND < MAX, NS < MAX, ND >= 1))
    t = thread(c, NA)
    mp = c.arr('map', U4, z3.Int('nmap'))
    c.assume(c.p['map'].len >= 1)
    m0 = sel(c.p['map'].el.t, 0)
    c.p['m0'] = m0
    c.assume(z3.And(m0 >= 0, m0 + ND <= NS))
    c.assume(z3.Implies(t < NA, z3.And(t * NS + NS <= NA * NS, t * ND + ND <= NA * ND, t * NS >= 0, t * ND >= 0, t * NS < 1 << 60)))
    c.assume(z3.And(NA * NS < 1 << 60, NA * ND < 1 << 60))
    return [na, nd, ns, mp, c.arr('num', CF, NA * ND * 2), c.arr('den', F4, NA * ND * 2), c.arr('next', CD, NA * NS * 2)]


def next_want(c, old, f, r, p):
    """component f (0: real, 1: imaginary) of solution r, polarization p of this station"""
    i = (c.p['t'] * c.p['nd'] + r) * 2 + p
    d = sel(c.p['den'].el.t, i)
    return z3.If(d == 0, NAN, sel(c.p['num'].el.f[4 * f].t, i) / d)


def post_knext(c, o):
    if o.threw:
        return [('never throws', False)]
    t, nd = c.p['t'], c.p['nd']
    n, n0 = o.st.mem['next'].cells[0].el, c.p['next'].el
    r, j = z3.Ints('r!p j!p')
    out = []
    base = (t * c.p['ns'] + c.p['m0']) * 2
    mine = z3.And(t < c.p['na'], r >= 0, r < nd)
    for f in (0, 1):
        for p in (0, 1):
            out.append(('numerator / denominator, component %d pol %d' % (f, p), z3.Implies(mine, sel(n.f[8 * f].t, base + 2 * r + p) == next_want(c, None, f, r, p))))
        out.append(('no other solution is written, component %d' % f, z3.Implies(z3.Or(t >= c.p['na'], j < base, j >= base + 2 * nd), sel(n.f[8 * f].t, j) == sel(n0.f[8 * f].t, j))))
    return out


def t_knext(lc, c):
    out = []
    t, nd = c.p['t'], c.p['nd']
    base = (t * c.p['ns'] + c.p['m0']) * 2
    r, j = z3.Ints('r!p j!p')
    n0 = c.p['next'].el
    for nm in lc.arrs:
        m = re.match(r'next\+0\.f(\d+)', nm)
        if not m:
            continue
        f = int(m.group(1)) // 8
        for x in lc.lv:
            if lc.lv[x].kind != 'int':
                continue
            for p in (0, 1):
                out.append(('T:done(%s,%s,%d)' % (nm, x, p), lambda v, nm=nm, x=x, p=p, f=f: z3.And(zi(v.v(x)) >= 0, z3.Implies(z3.And(t < c.p['na'], r >= 0, r < zi(v.v(x))), sel(v.arr(nm), base + 2 * r + p) == next_want(c, None, f, r, p)))))
        out.append(('T:frame(%s)' % nm, lambda v, nm=nm, f=f: z3.Implies(z3.Or(j < base, j >= base + 2 * nd), sel(v.arr(nm), j) == sel(n0.f[8 * f].t, j))))
    return out


# ---- step
At2, Cos, Sin = z3.Function('atan2', R, R, R), z3.Function('cos', R, R), z3.Function('sin', R, R)
u1 = lambda F: (lambda E, st, a, i: FV(F(*[x.r for x in a]), 8))
CON_STEP = {r'^(std::)?atan2(\(|$)': u1(At2), r'^(std::)?cos(\(|$)': u1(Cos), r'^(std::)?sin(\(|$)': u1(Sin)}


def pre_kstep(c):
    nv = c.u('nv', 64)
    t = thread(c, c.p['nv'])
    c.assume(c.p['nv'] < MAX)
    x, y = z3.Reals('x!a y!a')
    return [nv, c.arr('sol', CD, c.p['nv']), c.arr('next', CD, c.p['nv']), c.bool('phase'), c.real('step')]


def post_kstep(c, o):
    if o.threw:
        return [('never throws', False)]
    t, step = c.p['t'], c.p['step']
    n, n0, s = o.st.mem['next'].cells[0].el, c.p['next'].el, c.p['sol'].el
    j = z3.Int('j!p')
    at = lambda x, q: sel(x.f[q].t, t)
    ph = lambda x: At2(at(x, 8), at(x, 0))
    PI = z3.RealVal(str(Fraction('3.141592653589793')))
    d = ph(n0) - ph(s)
    d = z3.If(d > PI, d - 2 * PI, z3.If(d < -PI, d + 2 * PI, d))
    mine, circle = t < c.p['nv'], c.p['phase']
    r = [('along the line, %s' % nm, z3.Implies(z3.And(mine, z3.Not(circle)), at(n, q) == at(s, q) * (1 - step) + at(n0, q) * step)) for nm, q in (('Re', 0), ('Im', 8))]
    r += [('along the circle, %s' % nm, z3.Implies(z3.And(mine, circle), at(n, q) == F(ph(s) + step * d))) for nm, q, F in (('Re', 0, Cos), ('Im', 8, Sin))]
    r.append(('no other solution is written', z3.ForAll([j], z3.Implies(z3.Or(j != t, t >= c.p['nv']), z3.And(*[sel(n.f[q].t, j) == sel(n0.f[q].t, j) for q in n.f])))))
    return r


# ---- the launchers
def device(c, *names):
    """device memory: handles to the arrays"""
    out = []
    for nm, elem in names:
        n = z3.Int('n_' + nm)
        p = c.arr(nm, elem, n)
        h = c.out('h_' + nm)
        c.st0.mem[h.root].cells[0] = p
        out.append(h)
    return out


def c_grid(n):
    def f(E, st, a, i):
        g, b = zi(a[0].u), zi(a[1].u)
        E.oblige(st, z3.And(b >= 1, b <= 1024, g >= 1, g * b >= E.ctx.p[n]), 'the grid has a thread for every ' + n)
        st.assume(z3.Bool('launched'))
    return f


def c_kernel(args):
    """the kernel gets these arguments: ('array', offset) or a parameter name"""
    def f(E, st, a, i):
        c = E.ctx
        E.oblige(st, z3.BoolVal(len(a) == len(args)), 'arguments of the kernel')
        for x, w in zip(a, args):
            if isinstance(w, tuple):
                p = E.norm(st, x)
                E.oblige(st, z3.BoolVal(isinstance(p, Ptr) and p.root == w[0]), 'the kernel works on ' + w[0])
                E.oblige(st, zi(p.path[1]) == w[1](c), 'the kernel starts at the right element of ' + w[0])
            elif isinstance(x, FV):
                E.oblige(st, x.r == c.p[w], 'the kernel gets ' + w)
            elif x.w == 1:
                E.oblige(st, x.b == c.p[w], 'the kernel gets ' + w)
            else:
                E.oblige(st, zi(x.u) == c.p[w], 'the kernel gets ' + w)
        q = st.mem['h_done'].cells
        st.mem['h_done'] = Obj('h_done', {0: IV.c(32, (q[0].const() if 0 in q else 0) + 1)}, None, 'mem')
    return f


def post_launch(c, o):
    if o.threw:
        return [('never throws', False)]
    return [('launched once', z3.BoolVal(0 in o.st.mem['h_done'].cells and o.st.mem['h_done'].cells[0].const() == 1))]


def counts(c, *names):
    r = [c.u(n, 64) for n in names]
    for n in names:
        c.assume(c.p[n] < MAX)
    c.assume(c.p['nv'] * c.p.get('dir', 0) < 1 << 60)
    c.out('h_done')
    return r


Z0 = lambda c: z3.IntVal(0)
DIR = lambda c: c.p['dir'] * c.p['nv']


def pre_ldir(c):
    return counts(c, 'nv', 'nd', 'ns', 'dir') + device(c, ('pairs', U4), ('map', U4), ('sol', CD), ('model', MF), ('in', MF), ('temp', MF), ('num', CF), ('den', F4))


def pre_lsub(c):
    return counts(c, 'nd', 'nv', 'ns') + device(c, ('pairs', U4), ('map', U4), ('sol', CD), ('model', CF), ('res', MF))


def pre_lnext(c):
    return counts(c, 'na', 'nv', 'nd', 'ns', 'dir') + device(c, ('pairs', U4), ('map', U4), ('next', CD), ('num', CF), ('den', F4))


def pre_lstep(c):
    return counts(c, 'nv') + device(c, ('sol', CD), ('next', CD)) + [c.bool('phase'), c.real('step')]


LAUNCH = [('ldirection', pre_ldir, 'nv', 'SolveDirectionKernel', ['nv', 'nd', 'ns', ('pairs', Z0), ('map', DIR), ('sol', Z0), ('model', DIR), ('in', Z0), ('temp', Z0), ('num', Z0), ('den', Z0)]),
          ('lsubtract', pre_lsub, 'nv', 'SubtractKernel', ['nd', 'nv', 'ns', ('pairs', Z0), ('map', Z0), ('sol', Z0), ('model', Z0), ('res', Z0)]),
          ('lnext', pre_lnext, 'na', 'SolveNextSolutionKernel', ['na', 'nd', 'ns', ('map', DIR), ('num', Z0), ('den', Z0), ('next', Z0)]),
          ('lstep', pre_lstep, 'nv', 'StepKernel', ['nv', ('sol', Z0), ('next', Z0), 'phase', 'step'])]


def targets(thorough):
    T = []
    for nm, shapes, sz, f in OPS:
        pre, post = ops(shapes, sz, f)
        T.append(('cuda', Target(nm, 'drv_' + nm, pre, post, about='2x2 complex matrices: ' + nm)))
    T.append(('cuda', Target('add', 'drv_add', pre_add, post_add(1), timeout=25000, budget=300, about='residual_out = residual_in + S1 M S2^H for this visibility only')))
    T.append(('cuda', Target('subtract', 'drv_subtract', pre_add, post_add(-1), timeout=25000, budget=300, about='residual_out = residual_in - S1 M S2^H for this visibility only')))
    T.append(('cuda', Target('direction', 'drv_direction', pre_dir, post_dir, contracts=CON, timeout=25000, budget=300, about='a visibility adds its numerators and denominators to its two stations, atomically')))
    K = con_thread()
    T.append(('cuda', Target('kernel-direction', 'drv_kdirection', pre_kdir, post_kdir, contracts={**CON, **K}, timeout=25000, budget=300, about='SolveDirectionKernel: each thread does its visibility, idle threads nothing')))
    T.append(('cuda', Target('kernel-subtract', 'drv_ksubtract', pre_ksub, post_ksub, contracts=K, templates=[t_ksub], timeout=25000, budget=400, nl=True, soft=True, about='SubtractKernel: minus the sum over all directions')))
    T.append(('cuda', Target('kernel-next', 'drv_knext', pre_knext, post_knext, contracts={**K, r'^vf_nan$': lambda E, st, a, i: FV(NAN, 8)}, templates=[t_knext], timeout=25000, budget=300, about='SolveNextSolutionKernel: numerator / denominator or NaN')))
    T.append(('cuda', Target('kernel-step', 'drv_kstep', pre_kstep, post_kstep, contracts={**K, **CON_STEP}, timeout=25000, budget=300, about='StepKernel: along the line or the circle')))
    for nm, pre, n, k, args in LAUNCH:
        T.append(('cuda', Target(nm, 'drv_' + nm, pre, post_launch, contracts={r'^vf_grid$': c_grid(n), '^' + k + r'\(': c_kernel(args)}, timeout=30000, about='the launch covers every ' + n + ' and hands over the right memory')))
    return T
