"""Least-squares solvers (ddecal/linear_solvers)."""
from unit import Target
from specs import *

UNITS = {'lls': 'lls.cc'}
NATIVE = 'P12.cc'
NATIVE_FLAGS = ['-llapack', '-lblas']
SEARCH_SECS = 6
BOUND = 'random systems up to 114 x 24 with up to 3 right-hand sides'
ASSUMPTIONS = ['float arithmetic treated as real arithmetic']
CF = SStruct({0: SFp(4), 4: SFp(4)}, 8)
MAXN = 1 << 14


def cm(x, y):
    return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])


AR = z3.ArraySort(I, R)
# sum over k < K of conj(a[i*M + k]) * b[j*M + k]
def term(ar, ai, br, bi, p, q, part):
    c = cm((sel(ar, p), -sel(ai, p)), (sel(br, q), sel(bi, q)))
    return c[part]


Dot = [SpecFn('Dot' + 'ri'[k], [AR, AR, AR, AR, I, I, I], R,
              (lambda k: lambda ar, ai, br, bi, p, q, n: z3.If(n <= 0, z3.RealVal(0), Dot[k](ar, ai, br, bi, p, q, n - 1) + term(ar, ai, br, bi, p + n - 1, q + n - 1, k)))(k)) for k in (0, 1)]


def pre(c):
    m, n, p = c.s('m', 32), c.s('n', 32), c.s('p', 32)
    M, N, P = c.p['m'], c.p['n'], c.p['p']
    c.assume(z3.And(M >= 1, N >= 1, P >= 1, M <= MAXN, N <= MAXN, P <= MAXN))
    a = c.arr('a', CF, M * N)
    b = c.arr('b', CF, z3.If(M > N, M, N) * P)
    i, j, k, q = z3.Ints('I J K Q')
    c.assume(z3.And(0 <= i, i <= j, j < N, 0 <= k, k < N, 0 <= q, q < P))
    c.p.update(I=i, J=j, K=k, Q=q)
    return [m, n, p, a, b]


def G(c, part):
    """element (I, J) of A^H A"""
    e = c.p['a'].el
    ar, ai = e.f[0].t, e.f[4].t
    return Dot[part](ar, ai, ar, ai, c.p['I'] * c.p['m'], c.p['J'] * c.p['m'], c.p['m'])


def H(c, part):
    """element (K, Q) of A^H b"""
    e, f = c.p['a'].el, c.p['b'].el
    return Dot[part](e.f[0].t, e.f[4].t, f.f[0].t, f.f[4].t, c.p['K'] * c.p['m'], c.p['Q'] * c.p['m'], c.p['m'])


def cell(E, st, p):
    return E.load(st, p, ('i', 32))


def vec_of(E, st, p):
    n = E.cell_node(st, Ptr(p.root, p.path[:-2]))
    return n


def c_cposv(E, st, a, i):
    """LAPACK: solves the Hermitian positive definite system G X = H (G n x n,
    upper triangle, H n x nrhs); info 0 exactly when it succeeded"""
    E.assumptions.add('LAPACK cposv solves G X = H and reports success by info = 0')
    c = E.ctx
    a = [E.norm(st, x) for x in a]
    up = E.load(st, a[0], INT(8))
    n, p, lda, ldb = (zi(E.load(st, a[k], INT(32)).s) for k in (1, 2, 4, 6))
    N, P, Ii, J, K, Q = (c.p[x] for x in ('n', 'p', 'I', 'J', 'K', 'Q'))
    E.oblige(st, zi(up.u) == 85, 'cposv: upper triangle')
    E.oblige(st, z3.And(n == N, p == P, lda == N, ldb == N), 'cposv: dimensions')
    g, h = vec_of(E, st, a[3]), vec_of(E, st, a[5])
    E.oblige(st, z3.And(zi(a[3].path[-2]) == 0, zi(a[5].path[-2]) == 0, zi(g.len) == N * N, zi(h.len) == N * P), 'cposv: whole arrays')
    for part, f in ((0, 0), (1, 4)):
        E.oblige(st, sel(g.el.f[f].t, Ii + J * N) == G(c, part), 'cposv: the matrix is A^H A (part %d)' % part)
        E.oblige(st, sel(h.el.f[f].t, K + Q * N) == H(c, part), 'cposv: the right-hand side is A^H b (part %d)' % part)
    X = [z3.Const('X%d' % k, AR) for k in (0, 1)]
    ob = st.mem[a[5].root].copy()
    new = map_node(lambda t: t, h.el)
    st.mem[a[5].root] = ob
    off = a[5].path[0]
    ob.cells[off] = VecN(h.shape, h.len, StructN(h.el.shape, {0: Leaf(h.el.f[0].shape, X[0]), 4: Leaf(h.el.f[4].shape, X[1])}))
    info = fresh_int('info')
    st.assume(z3.And(info >= -(1 << 31), info < (1 << 31), info == z3.Int('INFO')))
    E.store(st, a[7], IV(32, s=info))
    return None


def enclosing(lc):
    """values of integer registers of the enclosing loops"""
    out = {}
    for n, v in lc.entry.regs.items():
        if n in lc.lv or not isinstance(v, IV) or v.w < 32 or v.const() is not None:
            continue
        t = zi(v.s if v.has_s and not v.has_u else v.u)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(t).startswith('h_'):
            out[n] = t
    return out


def t_ne(lc, c):
    out = []
    M, N, P, Ii, J, K, Q = (c.p[x] for x in ('m', 'n', 'p', 'I', 'J', 'K', 'Q'))
    e, f = c.p['a'].el, c.p['b'].el
    A_, B_ = (e.f[0].t, e.f[4].t), (f.f[0].t, f.f[4].t)
    enc = enclosing(lc)
    ints = [x for x in lc.lv if lc.lv[x].kind == 'int']
    for x in ints:
        for t in (J, Q):
            out.append(('T:below(%s,%s)' % (x, t), lambda v, x=x, t=t: z3.Implies(zi(v.v(x)) < t, zi(v.v(x)) * N + N <= t * N)))
            out.append(('T:above(%s,%s)' % (x, t), lambda v, x=x, t=t: z3.Implies(zi(v.v(x)) > t, t * N + N <= zi(v.v(x)) * N)))
    # innermost: the element is the partial sum
    for (base, _, off), (idx, get) in lc.elems.items():
        for x, ex in enc.items():
            for y, ey in enc.items():
                if not lc.E.check(lc.entry.st.pc, [idx != ex + ey * N]) == 'unsat':
                    continue
                for k in ints:
                    for nm, R_ in (('A', A_), ('b', B_)):
                        part = 0 if off == 0 else 1
                        out.append(('T:sum%s(%s,%s,%s,%s)' % (nm, x, y, k, off), lambda v, ex=ex, ey=ey, k=k, R_=R_, get=get, part=part:
                                    get(v.st, v.regs) == Dot[part](*A_, *R_, ex * M, ey * M, zi(v.v(k)))))
    # outer loops: finished elements
    for an, g in lc.arrs.items():
        if not an.endswith(('.f0v', '.f4v')):
            continue
        part = 0 if an.endswith('.f0v') else 1
        at = lambda v, q, g=g: z3.Select(g(v.st, v.regs), q)
        for y in ints:
            out.append(('T:rowA(%s,%s)' % (y, an), lambda v, y=y, at=at, part=part: z3.Implies(zi(v.v(y)) > Ii, at(v, Ii + J * N) == G(c, part))))
            out.append(('T:rowB(%s,%s)' % (y, an), lambda v, y=y, at=at, part=part: z3.Implies(zi(v.v(y)) > Q, at(v, K + Q * N) == H(c, part))))
            for x, ex in enc.items():
                out.append(('T:cellA(%s,%s,%s)' % (x, y, an), lambda v, y=y, ex=ex, at=at, part=part:
                            z3.Implies(z3.Or(ex > Ii, z3.And(ex == Ii, zi(v.v(y)) > J)), at(v, Ii + J * N) == G(c, part))))
                out.append(('T:cellB(%s,%s,%s)' % (x, y, an), lambda v, y=y, ex=ex, at=at, part=part:
                            z3.Implies(z3.Or(ex > Q, z3.And(ex == Q, zi(v.v(y)) > K)), at(v, K + Q * N) == H(c, part))))
    return out


def post(c, o):
    if o.threw:
        return [('never throws', False)]
    n = o.st.mem['b'].cells[0].el
    t = z3.Int('T')
    old = c.p['b'].el
    NP = c.p['n'] * c.p['p']
    r = [('success exactly when the factorisation succeeds', o.val.b == (z3.Int('INFO') == 0))]
    for k, f in ((0, 0), (1, 4)):
        r.append(('b holds the solution (part %d)' % k, z3.Implies(z3.And(t >= 0, t < NP), z3.Select(n.f[f].t, t) == z3.Select(z3.Const('X%d' % k, AR), t))))
    return r


def solver(svd):
    """LAPACK cgels / cgelss: a call with lwork -1 only reports the optimal work
    size, any other call replaces b by the solutions"""
    # positions of the arguments
    ix = dict(m=0, n=1, p=2, a=3, lda=4, b=5, ldb=6, s=7, rcond=8, work=10, lwork=11, rwork=12, info=13) if svd else \
        dict(trans=0, m=1, n=2, p=3, a=4, lda=5, b=6, ldb=7, work=8, lwork=9, info=10)
    nm = 'cgelss' if svd else 'cgels'

    def f(E, st, a, i):
        E.assumptions.add('LAPACK %s solves the least-squares problem and reports success by info = 0; a call with lwork = -1 only returns the optimal work size (a positive integer below 2^24)' % nm)
        c = E.ctx
        A_ = {k: E.norm(st, a[v]) for k, v in ix.items()}
        get = lambda k: zi(E.load(st, A_[k], INT(32)).s)
        M, N, P = (c.p[x] for x in 'mnp')
        mx = z3.If(M > N, M, N)
        mn = z3.If(M > N, N, M)
        if not svd:
            E.oblige(st, zi(E.load(st, A_['trans'], INT(8)).u) == 78, nm + ': not transposed')
        E.oblige(st, z3.And(get('m') == M, get('n') == N, get('p') == P, get('lda') == M, get('ldb') == mx), nm + ': dimensions')
        ok = A_['a'].root == 'a' and A_['b'].root == 'b'
        E.oblige(st, z3.And(ok, zi(A_['a'].path[-2]) == 0, zi(A_['b'].path[-2]) == 0) if ok else z3.BoolVal(False), nm + ': the arrays A and b')
        if svd:
            E.oblige(st, zi(vec_of(E, st, A_['s']).len) >= mn, nm + ': room for the singular values')
            E.oblige(st, zi(vec_of(E, st, A_['rwork']).len) >= 5 * mn, nm + ': real work space')
            E.oblige(st, st.mem[A_['rcond'].root].cells[A_['rcond'].path[0]].r == 0, nm + ': rcond')
        for nmx in ('a', 'b'):
            e, e0 = st.mem[nmx].cells[0].el, c.p[nmx].el
            E.oblige(st, z3.And(*[e.f[k].t == e0.f[k].t for k in (0, 4)]), nm + ': receives %s unchanged' % nmx)
        lw = E.load(st, A_['lwork'], INT(32))
        wpath = A_['work'].path
        info = fresh_int('info')
        st.assume(z3.And(info >= -(1 << 31), info < (1 << 31)))
        if lw.const() is not None and (lw.const() in (-1, (1 << 32) - 1)):
            W = z3.Int('WOPT')
            st.assume(z3.And(W >= 1, W < 1 << 24))
            o = st.mem[A_['work'].root].copy()
            st.mem[A_['work'].root] = o
            o.cells[0] = FV(z3.ToReal(W), 4)
            o.cells[4] = FV(z3.RealVal(0), 4)
            st.assume(info == 0)
        else:
            w = vec_of(E, st, A_['work'])
            E.oblige(st, z3.And(zi(lw.s) == zi(w.len), zi(lw.s) == z3.Int('WOPT'), zi(wpath[-2]) == 0), nm + ': work space of the reported size')
            ob = st.mem['b'].copy()
            st.mem['b'] = ob
            h = ob.cells[0]
            ob.cells[0] = VecN(h.shape, h.len, StructN(h.el.shape, {k: Leaf(h.el.f[k].shape, z3.Const('X%d' % j, AR)) for j, k in ((0, 0), (1, 4))}))
            st.assume(info == z3.Int('INFO'))
            c.p['called'] = True
        E.store(st, A_['info'], IV(32, s=info))
        return None
    return f


def c_earlier(E, st, a, i):
    """an earlier call leaves arbitrary contents in the buffers (LAPACK work
    space: either not yet allocated or of the reported size)"""
    p = E.norm(st, a[0])
    o = st.mem[p.root].copy()
    st.mem[p.root] = o
    for off, v in list(o.cells.items()):
        if isinstance(v, VecN):
            ln = v.len
            if isinstance(ln, int) and ln == 0 or z3.is_int_value(zi(ln)):
                ln = fresh_int('work')
                st.assume(z3.Or(ln == 0, ln == z3.Int('WOPT')))
                st.assume(z3.And(z3.Int('WOPT') >= 1, z3.Int('WOPT') < 1 << 24))
            o.cells[off] = VecN(v.shape, ln, map_node(lambda t: fresh('old', t.sort()), v.el))
    return None


EARLIER = {r'^earlier_use$': c_earlier}


def post_q(svd):
    def post(c, o):
        if o.threw:
            return [('never throws', False)]
        e, e0 = o.st.mem['b'].cells[0].el, c.p['b'].el
        M, N = c.p['m'], c.p['n']
        X = [z3.Const('X0', AR), z3.Const('X1', AR)]
        solved = z3.And(*[e.f[k].t == X[j] for j, k in ((0, 0), (1, 4))])
        r = []
        under = z3.BoolVal(False) if svd else M < N
        r.append(('too few rows: rejected without touching A and b' if not svd else 'always solved',
                  z3.Implies(under, z3.And(z3.Not(o.val.b), *[e.f[k].t == e0.f[k].t for k in (0, 4)]))))
        r.append(('otherwise b holds the solutions', z3.Implies(z3.Not(under), solved)))
        r.append(('success exactly when LAPACK succeeded', z3.Implies(z3.Not(under), o.val.b == (z3.Int('INFO') == 0))))
        return r
    return post


def targets(thorough):
    return [('lls', Target('normal equations', 'drv_ne', pre, post, contracts={**EARLIER, r'^cposv_$': c_cposv}, templates=[t_ne], timeout=60000, budget=400, frames=False,
                           about='A^H A and A^H b are handed to the Cholesky solver and its solution is returned')),
            ('lls', Target('QR', 'drv_qr', pre, post_q(False), contracts={**EARLIER, r'^cgels_$': solver(False)}, timeout=30000, budget=200,
                           about='the whole problem is handed to LAPACK and its solution and status are returned')),
            ('lls', Target('SVD', 'drv_svd', pre, post_q(True), contracts={**EARLIER, r'^cgelss_$': solver(True)}, timeout=30000, budget=200,
                           about='the whole problem is handed to LAPACK and its solution and status are returned'))]
