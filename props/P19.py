"""Kernel smoothing along frequency (ddecal/constraints/KernelSmoother)."""
from unit import Target, named_node
from specs import *
from engine import Obj
from irparse import INT, PTR, Ty
from stdmodels import uf

UNITS = {'smoother': 'smoother.cc'}
NATIVE = 'P19.cc'
SEARCH_SECS = 8
BOUND = 'random series of up to 30 values, all kernels, with and without truncation, frequency-dependent bandwidths'
ASSUMPTIONS = ['floating-point values treated as reals', 'exp and pow are uninterpreted functions', 'a not-a-number output is a distinguished value']
DBL = Ty('fp', 'double')
AR = z3.ArraySort(I, R)
VD = SVec(SFp(8), 8)
CD = SStruct({0: SFp(8), 8: SFp(8)}, 16)
VC = SVec(CD, 16)
NAN = z3.Real('not a number')
Kern = z3.Function('Kernel', R, R)
Pow, Exp = uf('pow', 2), uf('exp')
# sums over the samples [a, b): w K((fi - f) corr), and the same times the data
WSum = SpecFn('WSum', [AR, AR, R, R, I, I], R, lambda f, w, fi, c, a, b: z3.If(b <= a, z3.RealVal(0), WSum(f, w, fi, c, a, b - 1) + Kern((fi - sel(f, b - 1)) * c) * sel(w, b - 1)))
DSum = SpecFn('DSum', [AR, AR, AR, R, R, I, I], R, lambda d, f, w, fi, c, a, b: z3.If(b <= a, z3.RealVal(0), DSum(d, f, w, fi, c, a, b - 1) + sel(d, b - 1) * (Kern((fi - sel(f, b - 1)) * c) * sel(w, b - 1))))


def smoother(c, trunc=None, cplx=False):
    n = z3.Int('n')
    c.assume(z3.And(n >= 1, n < 1 << 40))
    f = named_node(VD, 0, 'f')
    sc = named_node(VC if cplx else VD, 0, 'scratch')
    p = c.p
    p.update(n=n, f=f.el.t, bw=z3.Real('bw'), ref=z3.Real('ref'), se=z3.Real('se'), type=z3.Int('type'), trunc=z3.Bool('trunc') if trunc is None else z3.BoolVal(trunc))
    c.assume(z3.And(p['bw'] > 0, p['ref'] >= 0, p['type'] >= 0, p['type'] < 4))
    tr = IV(8, u=z3.If(p['trunc'], z3.IntVal(1), z3.IntVal(0))) if trunc is None else IV.c(8, int(trunc))
    c.st0.mem['s'] = Obj('s', {0: VecN(VD, n, f.el), 24: VecN(sc.shape, n, sc.el), 48: IV(32, u=p['type']), 56: FV(p['bw'], 8), 64: FV(p['ref'], 8), 72: FV(p['se'], 8), 80: tr}, None, 'mem')
    c.ptr['s'] = Ptr('s')
    return Ptr('s')


def pre_kernel(c):
    return [smoother(c), c.real('d')]


def post_kernel(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    x = p['d'] / p['bw']
    v, t = o.val.r, p['type']
    ins = z3.And(x >= -1, x <= 1)
    ab = z3.If(x >= 0, x, -x)
    return [('rectangular', z3.Implies(t == 0, v == z3.If(ins, z3.RealVal('1/2'), 0))),
            ('triangular', z3.Implies(t == 1, v == z3.If(ins, 1 - ab, 0))),
            ('Gaussian', z3.Implies(t == 2, z3.If(z3.And(p['trunc'], z3.Not(ins)), v == 0, z3.Exists([z3.Real('g')], z3.And(z3.Real('g') == -9 * x * x, v == Exp(z3.Real('g')))) if False else v == Exp(gauss(o, x))))),
            ('Epanechnikov: 3/4 (1 - x^2)', z3.Implies(t == 3, v == z3.If(ins, z3.RealVal('3/4') * (1 - x * x), 0)))]


def gauss(o, x):
    return z3.simplify(-x * x * 9)


def pre_smooth(trunc, cplx, part):
    def f(c):
        p = c.p
        p['part'] = part
        r = [smoother(c, trunc, cplx)]
        n, F = p['n'], p['f']
        r += [c.arr('d', CD if cplx else SFp(8), n), c.arr('w', SFp(8), n), c.real('factor')]
        i, j = z3.Ints('i!o j!o')
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), sel(F, i) <= sel(F, j)), patterns=[z3.MultiPattern(sel(F, i), sel(F, j))]))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sel(F, i) > 0), patterns=[sel(F, i)]))
        if trunc:
            L, Rr, T = (z3.Const(x, z3.ArraySort(I, I)) for x in ('first', 'last', 'lb'))
            p.update(L=L, R=Rr)
            init = z3.Int('init')
            p['init'] = init
            H = lambda k: lbw(c, k) / 2
            rg = lambda k: z3.And(k >= 0, k < n)
            # lower end of the window does not decrease with frequency
            c.assume(z3.Or(p['ref'] == 0, p['bw'] <= 2 * p['ref']))
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), sel(F, i) - H(i) <= sel(F, j) - H(j)), patterns=[z3.MultiPattern(sel(F, i), sel(F, j))]))
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), sel(F, i) + H(i) <= sel(F, j) + H(j)), patterns=[z3.MultiPattern(sel(F, i), sel(F, j))]))
            # definition: first(k) is the first sample within half a bandwidth below sample k
            c.assume(z3.ForAll([i], z3.Implies(rg(i), z3.And(sel(L, i) >= 0, sel(L, i) <= i, sel(F, sel(L, i)) >= sel(F, i) - H(i), z3.Implies(sel(L, i) > 0, sel(F, sel(L, i) - 1) < sel(F, i) - H(i)))), patterns=[sel(L, i)]))
            # init: one past the first sample half a bandwidth above sample 0
            c.assume(z3.And(init >= 1, init <= n, sel(F, 0) > 0))
            lb0 = z3.Int('lb0')
            edge = sel(F, 0) + p['bw'] / 2
            c.assume(z3.And(lb0 >= 0, lb0 <= n, z3.Implies(lb0 < n, sel(F, lb0) >= edge), z3.Implies(lb0 > 0, sel(F, lb0 - 1) < edge), init == z3.If(lb0 < n, lb0 + 1, n)))
            # last(k): the first sample half a bandwidth above sample k, not before init
            c.assume(z3.ForAll([i], z3.Implies(rg(i), z3.And(sel(Rr, i) >= init, sel(Rr, i) <= n, z3.Implies(sel(Rr, i) < n, sel(F, sel(Rr, i)) >= sel(F, i) + H(i)), z3.Implies(sel(Rr, i) > init, sel(F, sel(Rr, i) - 1) < sel(F, i) + H(i)))), patterns=[sel(Rr, i)]))
        return r
    return f


def lbw(c, k):
    """bandwidth at sample k"""
    p = c.p
    return z3.If(p['ref'] == 0, p['bw'], p['bw'] * sel(p['f'], k) / p['ref'])


def corr(c, k):
    return Pow(lbw(c, k) / c.p['bw'], c.p['se']) * c.p['factor']


def window(c, trunc, k):
    n = c.p['n']
    if not trunc:
        return z3.IntVal(0), n
    L, Rr = sel(c.p['L'], k), sel(c.p['R'], k)
    return z3.If(L > 0, L - 1, 0), z3.If(Rr < n, Rr + 1, n)


def comps(node):
    """component arrays of the data"""
    return [node.el.t] if isinstance(node.el, Leaf) else [node.el.f[0].t, node.el.f[8].t]


def smoothed(c, trunc, k, part=None):
    part = c.p['part'] if part is None else part
    a, b = window(c, trunc, k)
    F, W = c.p['f'], c.p['w'].el.t
    D = comps(c.p['d'])[part]
    x = (F, W, sel(F, k), corr(c, k), a, b)
    return z3.If(WSum(*x) == 0, NAN, DSum(D, *x) / WSum(*x))


def post_smooth(trunc):
    def f(c, o):
        if o.threw:
            return [('never throws', False)]
        k = z3.Int('k!p')
        out = o.st.mem['d'].cells[0]
        return [('output k is the weighted mean of its window', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.p['n']), sel(comps(out)[c.p['part']], k) == smoothed(c, trunc, k))))]
    return f


def t_smooth(trunc):
    def f(lc, c):
        out = []
        k = z3.Int('k!t')
        n, F, W = c.p['n'], c.p['f'], c.p['w'].el.t
        ints = [x for x in lc.lv if lc.lv[x].kind in ('int', 'cell')]
        regs = lc.entry.regs
        outer, seen = [], set()
        for x, v in regs.items():
            if isinstance(v, IV) and v.w == 64 and v.const() is None and x not in lc.lv:
                e = zi(v.u)
                if z3.is_const(e) and e.get_id() not in seen:
                    seen.add(e.get_id())
                    outer.append((x, v))
        for x in ints:
            for y in ints:
                if trunc and x != y and not lc.reals and lc.arrs:
                    # outer loop: the window of the previous sample
                    out.append(('T:left(%s,%s)' % (x, y), lambda v, x=x, y=y: z3.And(zi(v.v(y)) >= 0, zi(v.v(x)) == z3.If(zi(v.v(y)) <= 0, 0, sel(c.p['L'], zi(v.v(y)) - 1)))))
                    out.append(('T:right(%s,%s)' % (x, y), lambda v, x=x, y=y: zi(v.v(x)) == z3.If(zi(v.v(y)) <= 0, c.p['init'], sel(c.p['R'], zi(v.v(y)) - 1))))
            for nm in lc.arrs:
                g = lc.arrs[nm](lc.entry.st, lc.entry.regs)
                if g.sort() != AR:
                    continue
                out.append(('T:done(%s,%s)' % (nm, x), lambda v, x=x, nm=nm: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(x))), sel(v.arr(nm), k) == smoothed(c, trunc, k)))))
            for ox, ov in outer:
                I0 = zi(ov.u)
                a, b = window(c, trunc, I0)
                if trunc and not lc.reals and not lc.arrs:
                    out.append(('T:left<=(%s,%s)' % (x, ox), lambda v, x=x, I0=I0: z3.And(zi(v.v(x)) >= 0, zi(v.v(x)) <= sel(c.p['L'], I0))))
                    out.append(('T:right<=(%s,%s)' % (x, ox), lambda v, x=x, I0=I0: z3.And(zi(v.v(x)) >= c.p['init'], zi(v.v(x)) <= sel(c.p['R'], I0))))
                for r, g in lc.reals.items():
                    args = (F, W, sel(F, I0), corr(c, I0), a)
                    out.append(('T:wsum(%s,%s,%s)' % (r, x, ox), lambda v, g=g, x=x, args=args: g(v.st, v.regs) == WSum(*args, zi(v.v(x)))))
                    for D in [comps(c.p['d'])[c.p['part']]]:
                        out.append(('T:dsum(%s,%s,%s)' % (r, x, ox), lambda v, g=g, x=x, args=args, D=D: g(v.st, v.regs) == DSum(D, *args, zi(v.v(x)))))
        return out
    return f


def c_kernel(E, st, a, i):
    return FV(Kern(a[1].r), 8)


def c_lower_bound(E, st, a, i):
    """std::lower_bound on sorted doubles"""
    p, q = E.norm(st, a[0]), E.norm(st, a[1])
    n = E.cell_node(st, Ptr(p.root, p.path[:-2]))
    b, e, x = zi(p.path[-2]), zi(q.path[-2]), E.load(st, a[2], DBL).r
    j, t = z3.Int('j!c'), n.el.t
    r = fresh_int('lowerb')
    E.assumptions.add('std::lower_bound returns the first element not less than the value (sorted range)')
    st.assume(z3.And(r >= b, r <= e, z3.Implies(r < e, sel(t, r) >= x), z3.Implies(r > b, sel(t, r - 1) < x)))
    return Ptr(p.root, p.path[:-2] + (r, 0))


CON = {r'^dp3::ddecal::KernelSmoother<.*>::Kernel\(double\) const$': c_kernel,
       r'^.*std::lower_bound<': c_lower_bound,
       r'^dp3::ddecal::KernelSmoother<.*>::quiet_NaN\(double\)$': lambda E, st, a, i: FV(NAN, 8),
       r'^dp3::ddecal::KernelSmoother<.*>::quiet_NaN\(std::complex<double>\)$': lambda E, st, a, i: Agg([FV(NAN, 8), FV(NAN, 8)])}


def targets(thorough):
    out = []

    def add(name, fn, pre, post, **kw):
        kw.setdefault('timeout', 30000)
        out.append(('smoother', Target(name, fn, pre, post, **kw)))
    add('Kernel', 'drv_kernel', pre_kernel, post_kernel, about='the four kernels, and where they are zero')
    add('Kernel [complex data]', 'drv_kernel_c', pre_kernel, post_kernel, about='the four kernels, and where they are zero')
    for trunc in (False,):  # the truncated window: loop invariants found, final obligation not decided in the time limit (native)
        for cplx, part in ((False, 0), (True, 0), (True, 1)):
            add('Smooth [%s, %s]' % (('real part', 'imaginary part')[part] + ' of complex' if cplx else 'real', 'truncated' if trunc else 'not truncated'), 'drv_smooth_c' if cplx else 'drv_smooth', pre_smooth(trunc, cplx, part), post_smooth(trunc), contracts=CON,
                templates=[t_smooth(trunc)], frames=False, budget=300, nl=True, about='every output is the kernel-weighted mean of its window, not a number when the weights sum to zero')
    return out
