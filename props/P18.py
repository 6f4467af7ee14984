"""Domain axes, boxes and grids (parmdb/Axis, Box, Grid, AxisMapping)."""
from unit import Target, named_node
from specs import *
from engine import Obj
from irparse import INT, PTR, Ty

UNITS = {'grid': 'grid.cc'}
NATIVE = 'P18.cc'
CXXFLAGS = ['-DVF_PROOF']
SEARCH_SECS = 8
BOUND = 'random axes of up to 10 cells (regular and irregular, with and without gaps, also at offsets of 5e9), grids up to 6 x 6, all operations compared with reference lists of intervals'
ASSUMPTIONS = ['floating-point values treated as reals', 'casacore::near is any relation that holds for equal values (find, Box), equality in the targets marked exact']
DBL = Ty('fp', 'double')
AR = z3.ArraySort(I, R)
NearT = z3.Function('Near', R, R, R, B)
TOL = z3.RealVal('1/%d' % 10 ** 13)
Near = lambda a, b: NearT(a, b, TOL)
VD = SVec(SFp(8), 8)


def near(exact):
    def f(E, st, a, i):
        x, y, t = a[0].r, a[1].r, a[2].r
        if exact:
            return IV(1, b=x == y)
        n = NearT(x, y, t)
        st.assume(z3.And(z3.Implies(x == y, n), n == NearT(y, x, t)))
        return IV(1, b=n)
    return f


def CON(exact):
    return {r'^casacore::near\(double, double, double\)$': near(exact)}


def axis(c, name, extra=None):
    """an axis in any state: n >= 1 cells"""
    n = z3.Int(name + '.n')
    c.assume(z3.And(n >= 1, n < 1 << 40))
    cells = {0: Ptr('vtable'), 8: IV(32, u=z3.Int(name + '.id')), 12: IV.c(8, 0)}
    arrs = {}
    for off, nm in ((16, 'center'), (40, 'width'), (64, 'lower'), (88, 'upper')):
        v = named_node(VD, 0, '%s.%s' % (name, nm))
        cells[off] = VecN(VD, n, v.el)
        arrs[nm] = v.el.t
    cells.update(extra or {})
    c.st0.mem[name] = Obj(name, cells, None, 'mem')
    c.p[name] = arrs
    c.p[name + '.n'] = n
    return Ptr(name)


def ordered(c, name):
    """the cells are ascending and disjoint"""
    a, n = c.p[name], c.p[name + '.n']
    i, j = z3.Ints('i!o j!o')
    lo, up = a['lower'], a['upper']
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sel(lo, i) < sel(up, i)), patterns=[sel(lo, i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sel(up, i) <= sel(lo, j)), patterns=[z3.MultiPattern(sel(up, i), sel(lo, j))]))
    # consequence: not the next cell, so strictly before
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i + 1 < j, j < n), sel(up, i) < sel(lo, j)), patterns=[z3.MultiPattern(sel(up, i), sel(lo, j))]))


def pre_find(exact):
    def f(c):
        a = axis(c, 'a')
        r = [a, c.real('x'), c.bool('right'), c.u('hint', 64)]
        if exact:
            ordered(c, 'a')
        c.st0.mem['found'] = Obj('found', {0: IV.c(8, 0)}, None, 'mem')
        c.ptr['found'] = Ptr('found')
        return r + [Ptr('found')]
    return f


def hit(c, j):
    a, x, rt = c.p['a'], c.p['x'], c.p['right']
    s, e = sel(a['lower'], j), sel(a['upper'], j)
    ns, ne = Near(x, s), Near(x, e)
    return z3.If(ns, rt, z3.If(ne, z3.Not(rt), z3.And(x > s, x < e)))


def before(c, j):
    a, x, rt = c.p['a'], c.p['x'], c.p['right']
    s, e = sel(a['lower'], j), sel(a['upper'], j)
    return z3.If(Near(x, s), z3.Not(rt), z3.And(z3.Not(Near(x, e)), x < s))


def post_find(c, o):
    if o.threw:
        return [('never throws', False)]
    i, fnd = zi(o.val.u), zi(o.cell('found').u) != 0
    n, h, x = c.p['a.n'], c.p['hint'], c.p['x']
    lo = c.p['a']['lower']
    j = z3.Int('j!p')
    # cells before a hint at or before the value need not be looked at
    start = z3.If(z3.And(h < n, z3.Or(Near(x, sel(lo, h)), x >= sel(lo, h))), h, 0)
    return [('a cell number, or the number of cells', z3.And(i >= 0, i <= n)),
            ('found: the cell holds the value', z3.Implies(fnd, z3.And(i < n, hit(c, i)))),
            ('not found: the value lies before the cell, or after the last cell', z3.Implies(z3.Not(fnd), z3.Or(i == n, before(c, i)))),
            ('the first such cell, or the first from the hint', z3.ForAll([j], z3.Implies(z3.And(j >= start, j < i), z3.And(z3.Not(hit(c, j)), z3.Not(before(c, j))))))]


def post_exact(c, o):
    if o.threw:
        return [('never throws', False)]
    i, fnd = zi(o.val.u), zi(o.cell('found').u) != 0
    n, x, rt = c.p['a.n'], c.p['x'], c.p['right']
    lo, up = c.p['a']['lower'], c.p['a']['upper']
    j = z3.Int('j!p')
    s, e = sel(lo, i), sel(up, i)
    return [('found: the cell contains the value', z3.Implies(fnd, z3.And(0 <= i, i < n, z3.If(rt, z3.And(s <= x, x < e), z3.And(s < x, x <= e))))),
            ('not found: every earlier cell lies before the value', z3.Implies(z3.Not(fnd), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.If(rt, sel(up, j) <= x, sel(up, j) < x)), patterns=[sel(up, j)]))),
            ('not found: the next cell lies after the value', z3.Implies(z3.Not(fnd), z3.And(0 <= i, i <= n, z3.Implies(i < n, z3.If(rt, x < s, x <= s)))))]


def t_find(exact):
    def f(lc, c):
        out = []
        j = z3.Int('j!t')
        n, h, x = c.p['a.n'], c.p['hint'], c.p['x']
        lo, up = c.p['a']['lower'], c.p['a']['upper']
        start = z3.If(z3.And(h < n, z3.Or(Near(x, sel(lo, h)), x >= sel(lo, h))), h, 0)
        for k in lc.lv:
            if lc.lv[k].kind not in ('int', 'cell'):
                continue
            out.append(('T:in(%s)' % k, lambda v, k=k: z3.And(zi(v.v(k)) >= 0, zi(v.v(k)) <= n)))
            if exact:
                out.append(('T:past(%s)' % k, lambda v, k=k: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(v.v(k))), z3.If(c.p['right'], sel(up, j) <= x, sel(up, j) < x)), patterns=[sel(up, j)])))
            else:
                out.append(('T:none(%s)' % k, lambda v, k=k: z3.ForAll([j], z3.Implies(z3.And(j >= start, j < zi(v.v(k))), z3.And(z3.Not(hit(c, j)), z3.Not(before(c, j)))))))
        return out
    return f


# ---- constructors
# start of cell k of a regular axis: s + k w
Pos = SpecFn('Pos', [R, R, I], R, lambda s, w, k: z3.If(k <= 0, s, Pos(s, w, k - 1) + w))
OFF = {'center': 16, 'width': 40, 'lower': 64, 'upper': 88}


def any_axis(c):
    c.st0.mem['out'] = Obj('out', {}, None, 'mem')
    c.ptr['out'] = Ptr('out')
    return Ptr('out')


def pre_regular(c):
    r = [any_axis(c), c.real('s'), c.real('w'), c.u('n', 32), c.bool('se')]
    p = c.p
    c.assume(z3.And(p['n'] >= 1, z3.If(p['se'], p['w'] > p['s'], p['w'] > 0)))
    p['W'] = z3.Real('W')
    c.assume(z3.Implies(z3.Not(p['se']), p['W'] == p['w']))
    c.assume(z3.Implies(p['se'], p['W'] == (p['w'] - p['s']) / z3.ToReal(p['n'])))
    return r


def cell_is(v, k, lo, up):
    """cell k of the arrays v is [lo, up)"""
    return [('lower', sel(v['lower'], k) == lo), ('upper', sel(v['upper'], k) == up), ('centre', sel(v['center'], k) == (lo + up) / 2), ('width', sel(v['width'], k) == up - lo)]


def arrays(o):
    m = o.st.mem['out'].cells
    return {x: m[f].el.t for x, f in OFF.items()}, {x: zi(m[f].len) for x, f in OFF.items()}, m


def post_regular(c, o):
    if o.threw:
        return [('never throws', False)]
    n, s, w = c.p['n'], c.p['s'], c.p['W']
    v, ln, m = arrays(o)
    k = z3.Int('k!p')
    r = [('number of cells', z3.And(*[x == n for x in ln.values()])), ('regular', zi(m[12].u) == 1),
         ('remembers start, width and count', z3.And(m[112].r == s, m[120].r == w, zi(m[128].u) == n))]
    for nm, f in cell_is(v, k, Pos(s, w, k), Pos(s, w, k + 1)):
        r.append(('%s of cell k' % nm, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f))))
    return r


def fp_arrs(lc):
    return {n: g for n, g in lc.arrs.items()}


def t_regular(lc, c):
    out = []
    k = z3.Int('k!t')
    s, w = c.p['s'], c.p['W']
    for i in lc.lv:
        if lc.lv[i].kind != 'int':
            continue
        for f, g in lc.reals.items():
            out.append(('T:pos(%s,%s)' % (i, f), lambda v, i=i, g=g: g(v.st, v.regs) == Pos(s, w, zi(v.v(i)))))
        for an in lc.arrs:
            for nm, t in (('lower', lambda k: Pos(s, w, k)), ('upper', lambda k: Pos(s, w, k + 1)), ('centre', lambda k: Pos(s, w, k) + w / 2), ('width', lambda k: w)):
                out.append(('T:%s(%s,%s)' % (nm, i, an), lambda v, i=i, an=an, t=t: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(i))), sel(v.arr(an), k) == t(k)))))
    return out


def pre_ordered(c):
    r = [any_axis(c), c.obj('v1', VD, maxlen=1 << 31), c.obj('v2', VD, maxlen=1 << 31), c.bool('se')]
    c.assume(z3.And(c.p['v1'].len == c.p['v2'].len, c.p['v1'].len >= 1))
    return r


def given(c, k):
    a, b, se = sel(c.p['v1'].el.t, k), sel(c.p['v2'].el.t, k), c.p['se']
    return z3.If(se, a, a - b / 2), z3.If(se, b, a + b / 2)


def post_ordered(c, o):
    if o.threw:
        return [('never throws', False)]
    n = zi(c.p['v1'].len)
    v, ln, m = arrays(o)
    k = z3.Int('k!p')
    r = [('number of cells', z3.And(*[x == n for x in ln.values()])), ('not regular', zi(m[12].u) == 0)]
    for nm, f in cell_is(v, k, *given(c, k)):
        r.append(('%s of cell k' % nm, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f))))
    return r


def t_ordered(lc, c):
    out = []
    k = z3.Int('k!t')
    lo, up = given(c, k)
    for i in lc.lv:
        if lc.lv[i].kind != 'int':
            continue
        for an in lc.arrs:
            for nm, t in (('lower', lo), ('upper', up), ('centre', (lo + up) / 2), ('width', up - lo)):
                out.append(('T:%s(%s,%s)' % (nm, i, an), lambda v, i=i, an=an, t=t: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(i))), sel(v.arr(an), k) == t))))
    return out


# ---- shared axes: contracts of make_shared (= the constructors proved above)
def fresh_axis(E, st, n, facts, extra):
    root = str(fresh_int('axis'))
    cells = {0: Ptr('vtable'), 8: IV(32, u=fresh_int('id')), 12: IV.c(8, 1 if extra else 0)}
    arrs = {}
    for nm, off in OFF.items():
        v = fresh(nm, AR)
        arrs[nm] = v
        cells[off] = VecN(VD, zi(n), Leaf(VD.elem, v))
    cells.update(extra or {})
    st.mem[root] = Obj(root, cells, None, 'mem')
    k = z3.Int('k!c')
    lo, up = facts(k)
    # one trigger per array
    for nm, f in cell_is(arrs, k, lo, up):
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), f), patterns=[sel(arrs['center' if nm == 'centre' else nm], k)]))
    return root


def give(E, st, p, root):
    E.store(st, p, Ptr(root))
    E.store(st, E.padd(st, p, 8), Ptr(None))


def c_make_regular(E, st, a, i):
    args = re.search(r'make_shared<dp3::parmdb::RegularAxis(.*)>\(', i.dem).group(1).split('>(')[0].split(', ')[1:]
    if len(args) == 1:  # copy
        o = E.get_root(st, a[1].root).copy()
        root = str(fresh_int('axis'))
        st.mem[root] = Obj(root, dict(o.cells), None, 'mem')
        give(E, st, a[0], root)
        return None
    if not args:
        s, w, n = z3.RealVal(-10 ** 30), z3.RealVal(2 * 10 ** 30), z3.IntVal(1)
    else:
        s, w = E.load(st, a[1], DBL).r, E.load(st, a[2], DBL).r
        v = E.load(st, a[3], INT(64 if 'long' in args[2] else 32))
        n = zi(v.u)
        E.oblige(st, z3.And(w > 0, n >= 1, n < 1 << 32), 'precondition of RegularAxis')
    if not args:
        give(E, st, a[0], fresh_axis(E, st, n, lambda k: (s, s + w), {112: FV(s, 8), 120: FV(w, 8), 128: IV(32, u=n)}))
    else:
        give(E, st, a[0], fresh_axis(E, st, n, lambda k: (Pos(s, w, k), Pos(s, w, k + 1)), {112: FV(s, 8), 120: FV(w, 8), 128: IV(32, u=n)}))
    return None


def c_make_ordered(E, st, a, i):
    if len(a) == 2:  # copy
        o = E.get_root(st, a[1].root)
        root = str(fresh_int('axis'))
        st.mem[root] = Obj(root, dict(o.cells), None, 'mem')
        give(E, st, a[0], root)
        return None
    x, y = E.cell_node(st, a[1]), E.cell_node(st, a[2])
    E.oblige(st, z3.And(zi(x.len) == zi(y.len), zi(x.len) >= 1), 'precondition of OrderedAxis')
    se = E.load(st, a[3], INT(8)) if len(a) > 3 else IV.c(8, 0)
    se = zi(se.u) != 0
    k = z3.Int('k!c')
    p, q = x.el.t, y.el.t
    E.oblige(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(x.len)), z3.If(se, sel(p, k) < sel(q, k), sel(q, k) > 0))), 'precondition of OrderedAxis: cells are not empty')
    give(E, st, a[0], fresh_axis(E, st, x.len, lambda k: (z3.simplify(z3.If(se, sel(p, k), sel(p, k) - sel(q, k) / 2)), z3.simplify(z3.If(se, sel(q, k), sel(p, k) + sel(q, k) / 2))), None))
    return None


def c_move(E, st, a, i):
    for d in (0, 8):
        E.store(st, E.padd(st, a[0], d), E.load(st, E.padd(st, a[1], d), PTR))
        if '&&' in i.dem:
            E.store(st, E.padd(st, a[1], d), Ptr(None))
    return None


SHARED = {r'^std::shared_ptr<dp3::parmdb::RegularAxis> std::make_shared<': c_make_regular,
          r'^std::shared_ptr<dp3::parmdb::OrderedAxis> std::make_shared<': c_make_ordered,
          r'^std::shared_ptr<dp3::parmdb::Axis>::shared_ptr(<.*>)?\(std::shared_ptr<dp3::parmdb::[A-Za-z]+>(&&| const&)\)$': c_move,
          r'^std::(__)?shared_ptr<dp3::parmdb::[A-Za-z]+(, .*)?>::~(__)?shared_ptr\(\)$': lambda E, st, a, i: None}


def shared_out(c):
    c.st0.mem['out'] = Obj('out', {0: Ptr(None), 8: Ptr(None)}, None, 'mem')
    c.ptr['out'] = Ptr('out')
    return Ptr('out')


def result(o):
    p = o.st.mem['out'].cells[0]
    m = o.st.mem[p.root].cells
    return {x: m[f].el.t for x, f in OFF.items()}, zi(m[16].len), m


# makeAxis
def pre_make(c):
    r = [shared_out(c), c.obj('low', VD, maxlen=1 << 31), c.obj('upp', VD, maxlen=1 << 31)]
    n = zi(c.p['low'].len)
    k = z3.Int('k!o')
    lo, up = c.p['low'].el.t, c.p['upp'].el.t
    c.assume(z3.And(n == c.p['upp'].len, n >= 1))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(lo, k) < sel(up, k)), patterns=[sel(lo, k)]))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < n), sel(lo, k) == sel(up, k - 1)), patterns=[sel(lo, k)]))
    return r


def post_make(c, o):
    if o.threw:
        return [('never throws', False)]
    v, n, m = result(o)
    lo, up = c.p['low'].el.t, c.p['upp'].el.t
    k = z3.Int('k!p')
    r = [('number of cells', n == zi(c.p['low'].len)),
         ('regular exactly when all cells are equally wide', (zi(m[12].u) == 1) == z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(up, k) - sel(lo, k) == sel(up, 0) - sel(lo, 0))))]
    for nm, f in cell_is(v, k, sel(lo, k), sel(up, k)):
        r.append(('%s of cell k' % nm, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f))))
    return r


def t_make(lc, c):
    lo, up = c.p['low'].el.t, c.p['upp'].el.t
    w = sel(up, 0) - sel(lo, 0)
    k = z3.Int('k!t')
    out = []
    for i in lc.lv:
        out.append(('T:same(%s)' % i, lambda v, i=i: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(i))), z3.And(sel(up, k) - sel(lo, k) == w, sel(lo, k) == Pos(sel(lo, 0), w, k), sel(up, k) == Pos(sel(lo, 0), w, k + 1))), patterns=[sel(lo, k), Pos(sel(lo, 0), w, k)])))
    return out


# ---- operations on axes without gaps
def mentions(t, x):
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        todo.extend(y.children())
    return False


def copied(arr, src, k, e, n):
    """cells e..n of arr are the first cells of src"""
    if z3.is_store(arr) and not z3.simplify(n == e).eq(z3.BoolVal(True)) and not mentions(arr.arg(2), src):
        return z3.BoolVal(False)  # a value of something else is appended
    return z3.ForAll([k], z3.Implies(z3.And(k >= e, k < n), sel(arr, k) == sel(src, k - e)), **pat(arr, k))


def pat(arr, k):
    return {'patterns': [sel(arr, k)]} if z3.is_const(arr) else {}


def gapless(c, name, exact=True):
    a, n = c.p[name], c.p[name + '.n']
    i, j = z3.Ints('i!o j!o')
    lo, up, ce, wi = (a[x] for x in ('lower', 'upper', 'center', 'width'))
    rg = lambda k: z3.And(k >= 0, k < n)
    c.assume(n < 1 << 30)
    c.assume(z3.ForAll([i], z3.Implies(rg(i), sel(lo, i) < sel(up, i)), patterns=[sel(lo, i)]))
    c.assume(z3.ForAll([i], z3.Implies(rg(i), sel(lo, i) < sel(up, i)), patterns=[sel(up, i)]))
    c.assume(z3.ForAll([i], z3.Implies(rg(i), sel(ce, i) == (sel(lo, i) + sel(up, i)) / 2), patterns=[sel(ce, i)]))
    c.assume(z3.ForAll([i], z3.Implies(rg(i), sel(wi, i) == sel(up, i) - sel(lo, i)), patterns=[sel(wi, i)]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < n), sel(lo, i) == sel(up, i - 1)), patterns=[sel(lo, i)]))
    # ascending (follows from the above by induction)
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sel(up, i) <= sel(lo, j)), patterns=[z3.MultiPattern(sel(up, i), sel(lo, j))]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sel(lo, i) < sel(lo, j)), patterns=[z3.MultiPattern(sel(lo, i), sel(lo, j))]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sel(up, i) < sel(up, j)), patterns=[z3.MultiPattern(sel(up, i), sel(up, j))]))


def vtable(c):
    c.st0.mem['vtable'] = Obj('vtable', {16: FnPtr('vf_clone'), 24: FnPtr('vf_compress'), 32: FnPtr('vf_subset')}, None, 'mem')


def parts(E, st, p):
    m = E.get_root(st, p.root).cells
    return zi(m[16].len), {x: m[f].el.t for x, f in OFF.items()}


def c_find(E, st, a, i):
    """contract of Axis::find (proved, exact)"""
    n, v = parts(E, st, a[0])
    x, rt = a[1].r, zi(a[2].u) != 0 if not a[2].const() in (0, 1) else z3.BoolVal(a[2].const() == 1)
    lo, up = v['lower'], v['upper']
    r, f, j = fresh_int('found'), z3.Bool('f!%s' % fresh_int('f')), z3.Int('j!c')
    st.assume(z3.And(r >= 0, r <= n))
    st.assume(z3.Implies(f, z3.And(r < n, z3.If(rt, z3.And(sel(lo, r) <= x, x < sel(up, r)), z3.And(sel(lo, r) < x, x <= sel(up, r))))))
    st.assume(z3.Implies(z3.Not(f), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < r), z3.If(rt, sel(up, j) <= x, sel(up, j) < x)), patterns=[sel(up, j)])))
    st.assume(z3.Implies(z3.Not(f), z3.Implies(r < n, z3.If(rt, x < sel(lo, r), x <= sel(lo, r)))))
    # the cell that contains the value is the one found (cells are disjoint)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, z3.If(rt, z3.And(sel(lo, j) <= x, x < sel(up, j)), z3.And(sel(lo, j) < x, x <= sel(up, j)))), z3.And(r == j, f)), patterns=[sel(lo, j)]))
    # every value within the range is found (no gaps)
    st.assume(z3.Implies(z3.And(r > 0, z3.Not(f)), z3.If(rt, sel(up, r - 1) <= x, sel(up, r - 1) < x)))
    return Agg([IV(64, u=r), IV(8, u=z3.If(f, z3.IntVal(1), z3.IntVal(0)))])


def c_make_axis(E, st, a, i):
    """contract of Axis::makeAxis (proved)"""
    x, y = E.cell_node(st, a[1]), E.cell_node(st, a[2])
    lo, up, n = x.el.t, y.el.t, zi(x.len)
    k = z3.Int('k!c')
    E.oblige(st, z3.And(n == zi(y.len), n >= 1), 'precondition of makeAxis: as many starts as ends')
    E.oblige(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(lo, k) < sel(up, k))), 'precondition of makeAxis: cells are not empty')
    E.oblige(st, z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < n), sel(lo, k) == sel(up, k - 1))), 'precondition of makeAxis: cells are consecutive')
    give(E, st, a[0], fresh_axis(E, st, n, lambda k: (sel(lo, k), sel(up, k)), None))
    return None


def c_clone(E, st, a, i):
    o = E.get_root(st, a[1].root)
    root = str(fresh_int('axis'))
    st.mem[root] = Obj(root, dict(o.cells), None, 'mem')
    give(E, st, a[0], root)
    return None


def c_subset(E, st, a, i):
    """contract of doSubset (proved for both kinds): cells s..e, or the default axis"""
    n, v = parts(E, st, a[1])
    s, e = zi(a[2].u), zi(a[3].u)
    e = z3.If(e >= n, n - 1, e)
    st.assume(z3.And(z3.Int('SUB') == s, z3.Int('SUBE') == e))
    b = z3.RealVal(10 ** 30)
    some = s <= e
    m = z3.If(some, e - s + 1, 1)
    give(E, st, a[0], fresh_axis(E, st, m, lambda k: (z3.If(some, sel(v['lower'], s + k), -b), z3.If(some, sel(v['upper'], s + k), b)), None))
    return None


OPS = {**CON(True), **SHARED, r'^dp3::parmdb::Axis::find\(': c_find, r'^dp3::parmdb::Axis::makeAxis\(': c_make_axis, r'^vf_clone$': c_clone, r'^vf_subset$': c_subset}


def intref(c, name, w=32):
    c.st0.mem[name] = Obj(name, {0: IV(w, u=z3.Int(name + '!before'))}, None, 'mem')
    c.ptr[name] = Ptr(name)
    return Ptr(name)


def pre_combine(match, case):
    def f(c):
        vtable(c)
        r = [shared_out(c), axis(c, 'a'), axis(c, 'b')] + [intref(c, x) for x in ('s1', 'e1', 's2', 'e2')]
        gapless(c, 'a')
        gapless(c, 'b')
        a, b, n1, n2 = c.p['a'], c.p['b'], c.p['a.n'], c.p['b.n']
        E1, E2, S1, S2 = sel(a['upper'], n1 - 1), sel(b['upper'], n2 - 1), sel(a['lower'], 0), sel(b['lower'], 0)
        if case == 'disjoint':
            c.assume(z3.Or(E1 <= S2, E2 <= S1))
        else:
            c.assume(z3.And(E1 > S2, E2 > S1, S1 < S2 if case[0] == '<' else S1 >= S2, E1 > E2 if case[1] == '>' else E1 <= E2))
        if match:
            # cell i of a and cell i - D of b are the same where both exist; there is one
            D, i = z3.Int('D'), z3.Int('i!m')
            c.p['D'] = D
            both = lambda i: z3.And(i >= 0, i < n1, i - D >= 0, i - D < n2)
            same = lambda i: z3.And(sel(a['lower'], i) == sel(b['lower'], i - D), sel(a['upper'], i) == sel(b['upper'], i - D))
            c.assume(z3.And(D > -n2, D < n1))
            c.assume(z3.ForAll([i], z3.Implies(both(i), same(i)), patterns=[sel(a['lower'], i)]))
            c.assume(z3.ForAll([i], z3.Implies(both(i), same(i)), patterns=[sel(a['upper'], i)]))
            f = z3.If(D > 0, D, 0)
            c.assume(both(f))
            c.assume(same(f))
            g = z3.If(D + n2 < n1, D + n2, n1) - 1
            c.assume(z3.And(both(g), same(g)))  # an instance of the above
        return r
    return f


def post_combine(match):
    def f(c, o):
        if o.threw:
            return [('never throws when the common cells are the same', False)] if match else [('a refusal', True)]
        v, n, m = result(o)
        s1, e1, s2, e2 = (zi(o.cell(x).s) for x in ('s1', 'e1', 's2', 'e2'))
        a, b, n1, n2 = c.p['a'], c.p['b'], c.p['a.n'], c.p['b.n']
        k = z3.Int('k!p')
        lo, up = v['lower'], v['upper']
        r = [('the first axis is cells s1..e1', z3.And(s1 >= 0, e1 <= n, e1 - s1 == n1)), ('the second axis is cells s2..e2', z3.And(s2 >= 0, e2 <= n, e2 - s2 == n2))]
        for nm, s, x, nx in (('first', s1, a, n1), ('second', s2, b, n2)):
            for w in ('lower', 'upper'):
                r.append(('%s of the cells of the %s axis' % (w, nm), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nx), sel(v[w], s + k) == sel(x[w], k)))))
        hole = z3.And(z3.Or(z3.And(k == e1, k + 1 == s2), z3.And(k == e2, k + 1 == s1)), z3.Or(z3.And(sel(lo, k) == sel(a['upper'], n1 - 1), sel(up, k) == sel(b['lower'], 0)), z3.And(sel(lo, k) == sel(b['upper'], n2 - 1), sel(up, k) == sel(a['lower'], 0))))
        r.append(('every other cell fills the hole between them', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Or(z3.And(k >= s1, k < e1), z3.And(k >= s2, k < e2), hole)))))
        return r
    return f


def old(lc, an):
    return lc.arrs[an](lc.entry.st, lc.entry.regs)


def t_combine(lc, c):
    out = []
    k = z3.Int('k!t')
    lens = [x for x in lc.lv if lc.lv[x].kind == 'len']
    ints = [x for x in lc.lv if lc.lv[x].kind == 'int']
    a, b = c.p['a'], c.p['b']
    srcs = [(nm + w, c.p[nm][w]) for nm in 'ab' for w in ('lower', 'upper')]
    # the appended cells are the source's cells
    for l in lens:
        e = lc.lv[l].get(lc.entry.st, lc.entry.regs)
        an = l[:-4] + '.v'
        if an not in lc.arrs:
            continue
        for i in ints:
            out.append(('T:len(%s,%s)' % (l, i), lambda v, l=l, i=i, e=e: zi(v.v(l)) == zi(e) + zi(v.v(i))))
        out.append(('T:keep(%s)' % l, lambda v, an=an, e=e: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(e)), sel(v.arr(an), k) == sel(old(lc, an), k)), **pat(v.arr(an), k))))
        for nm, s in srcs:
            out.append(('T:copy(%s,%s)' % (l, nm), lambda v, l=l, an=an, s=s, e=e: copied(v.arr(an), s, k, zi(e), zi(v.v(l)))))
    # matching loop
    offs = {}
    for g, val in list(lc.entry.regs.items()):
        if isinstance(val, IV) and val.w == 32:
            offs[g] = zi(val.s)
    for nm in ('s1', 's2'):
        x = lc.entry.st.mem[nm].cells.get(0)
        if isinstance(x, IV):
            offs[nm] = zi(x.s)
    if 's1' in offs and 's2' in offs and not lens:
        s1, s2 = offs['s1'], offs['s2']
        for i in ints:
            out.append(('T:match(%s)' % i, lambda v, i=i: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(i))), z3.And(s2 + k < c.p['a.n'], s1 + k < c.p['b.n'], sel(a['lower'], s2 + k) == sel(b['lower'], s1 + k), sel(a['upper'], s2 + k) == sel(b['upper'], s1 + k))))))
            out.append(('T:matchA(%s)' % i, lambda v, i=i: z3.ForAll([k], z3.Implies(z3.And(k >= s2, k < s2 + zi(v.v(i))), z3.And(sel(a['lower'], k) == sel(b['lower'], s1 - s2 + k), sel(a['upper'], k) == sel(b['upper'], s1 - s2 + k))), patterns=[sel(a['lower'], k)])))
            out.append(('T:last(%s)' % i, lambda v, i=i: z3.Implies(zi(v.v(i)) > 0, z3.And(sel(a['lower'], s2 + zi(v.v(i)) - 1) == sel(b['lower'], s1 + zi(v.v(i)) - 1), sel(a['upper'], s2 + zi(v.v(i)) - 1) == sel(b['upper'], s1 + zi(v.v(i)) - 1)))))
            out.append(('T:in(%s)' % i, lambda v, i=i: z3.And(s2 + zi(v.v(i)) <= c.p['a.n'], s1 + zi(v.v(i)) <= c.p['b.n'])))
    return out


# ---- subsets, compression, mappings
def reg_axis(c, name):
    """a regular axis in any state"""
    s, w = z3.Real(name + '.start'), z3.Real(name + '.w')
    n = z3.Int(name + '.n')
    c.p['S'], c.p['W'] = s, w
    r = axis(c, name, {112: FV(s, 8), 120: FV(w, 8), 128: IV(32, u=n)})
    c.assume(z3.And(w > 0, n < 1 << 31))
    k = z3.Int('k!o')
    a = c.p[name]
    for nm, t in (('lower', lambda k: Pos(s, w, k)), ('upper', lambda k: Pos(s, w, k + 1)), ('center', lambda k: Pos(s, w, k) + w / 2), ('width', lambda k: w)):
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sel(a[nm], k) == t(k)), patterns=[sel(a[nm], k)]))
    return r


def consistent(c, name):
    a, n = c.p[name], c.p[name + '.n']
    i = z3.Int('i!o')
    lo, up, ce, wi = (a[x] for x in ('lower', 'upper', 'center', 'width'))
    rg = lambda k: z3.And(k >= 0, k < n)
    for t in (lo, up):
        c.assume(z3.ForAll([i], z3.Implies(rg(i), sel(lo, i) < sel(up, i)), patterns=[sel(t, i)]))
    c.assume(z3.ForAll([i], z3.Implies(rg(i), sel(ce, i) == (sel(lo, i) + sel(up, i)) / 2), patterns=[sel(ce, i)]))
    c.assume(z3.ForAll([i], z3.Implies(rg(i), sel(wi, i) == sel(up, i) - sel(lo, i)), patterns=[sel(wi, i)]))


BIG = z3.RealVal(10 ** 30)


def pre_subset(c):
    return [shared_out(c), reg_axis(c, 'a'), c.u('s', 64), c.u('e', 64)]


def last_of(c):
    e, n = c.p['e'], c.p['a.n']
    return z3.If(e >= n, n - 1, e)


def default_axis(m):
    return z3.And(zi(m[12].u) == 1, m[112].r == -BIG, m[120].r == 2 * BIG, zi(m[128].u) == 1)


def post_subset(c, o):
    if o.threw:
        return [('never throws', False)]
    v, n, m = result(o)
    s, e = c.p['s'], last_of(c)
    return [('the default axis when there are none', z3.Implies(s > e, default_axis(m))),
            ('begins where cell s begins', z3.Implies(s <= e, m[112].r == c.p['S'] + z3.ToReal(s) * c.p['W'])),
            ('the cells s..e', z3.Implies(s <= e, z3.And(zi(m[12].u) == 1, m[120].r == c.p['W'], zi(m[128].u) == e - s + 1, n == e - s + 1)))]


def pre_subset_o(c):
    r = [shared_out(c), axis(c, 'a'), c.u('s', 64), c.u('e', 64)]
    c.assume(c.p['a.n'] < 1 << 31)
    consistent(c, 'a')
    return r


def post_subset_o(c, o):
    if o.threw:
        return [('never throws', False)]
    v, n, m = result(o)
    s, e, a = c.p['s'], last_of(c), c.p['a']
    k = z3.Int('k!p')
    r = [('the default axis when there are none', z3.Implies(s > e, default_axis(m) if 112 in m else False)),
         ('as many as there are', z3.Implies(s <= e, n == e - s + 1))]
    for nm, f in cell_is(v, k, sel(a['lower'], s + k), sel(a['upper'], s + k)):
        r.append(('%s of cell s + k' % nm, z3.Implies(s <= e, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f)))))
    return r


def pre_range(c):
    vtable(c)
    r = [shared_out(c), axis(c, 'a'), c.real('s'), c.real('e')]
    gapless(c, 'a')
    c.assume(c.p['s'] <= c.p['e'])
    return r + [intref(c, 'index', 64)]


def post_range(c, o):
    if o.threw:
        return [('never throws', False)]
    a, n, s, e = c.p['a'], c.p['a.n'], c.p['s'], c.p['e']
    S, F = z3.Int('SUB'), z3.Int('SUBE')
    j = z3.Int('j!p')
    return [('the index of the first cell', zi(o.cell('index').u) == S), ('not negative', S >= 0),
            ('none exactly when the range lies outside the axis', z3.Implies(s < e, (S <= F) == z3.And(sel(a['lower'], 0) < e, sel(a['upper'], n - 1) > s))),
            ('the cells that overlap the range', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(S <= j, j <= F) == z3.And(sel(a['lower'], j) < e, sel(a['upper'], j) > s))))]


def c_range(E, st, a, i):
    """contract of subset of a range (proved above)"""
    n, v = parts(E, st, a[1])
    s, e = a[2].r, a[3].r
    E.oblige(st, s <= e, 'precondition of subset: the range is not reversed')
    S, F, j = fresh_int('sub'), fresh_int('sube'), z3.Int('j!c')
    st.assume(z3.And(S >= 0, S <= n, F < n))
    f = lambda j: z3.And(S <= j, j <= F) == z3.And(sel(v['lower'], j) < e, sel(v['upper'], j) > s)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f(j)), patterns=[sel(v['lower'], j)]))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f(j)), patterns=[sel(v['upper'], j)]))
    st.assume(z3.Implies(s < e, (S <= F) == z3.And(sel(v['lower'], 0) < e, sel(v['upper'], n - 1) > s)))
    m = z3.If(S <= F, F - S + 1, 1)
    E.store(st, a[4], IV(64, u=S))
    E.ctx.p.setdefault('subs', []).append((S, F, v))
    give(E, st, a[0], fresh_axis(E, st, m, lambda k: (z3.If(S <= F, sel(v['lower'], S + k), -BIG), z3.If(S <= F, sel(v['upper'], S + k), BIG)), None))
    return None


def pre_check(c):
    vtable(c)
    r = [axis(c, 'a'), axis(c, 'b')]
    gapless(c, 'a')
    gapless(c, 'b')
    return r


def post_check(c, o):
    if o.threw:
        return [('never throws', False)]
    a, b, n1, n2 = c.p['a'], c.p['b'], c.p['a.n'], c.p['b.n']
    i = z3.Int('i!p')
    (S1, F1, v1), (S2, F2, v2) = c.p['subs'][-2:]
    same = z3.And(F1 - S1 == F2 - S2, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= F1 - S1), z3.And(sel(a['lower'], S1 + i) == sel(b['lower'], S2 + i), sel(a['upper'], S1 + i) == sel(b['upper'], S2 + i)))))
    return [('both overlap, or neither', (S1 <= F1) == (S2 <= F2)), ('the cells in the overlap are the same', z3.Implies(S1 <= F1, (zi(o.val.u) != 0) == same))]


def t_check(lc, c):
    out = []
    k = z3.Int('k!t')
    a, b = c.p['a'], c.p['b']
    subs = c.p.get('subs', [])[-2:]
    if len(subs) < 2:
        return out
    S1, F1, S2 = subs[0][0], subs[0][1], subs[1][0]
    for i in lc.lv:
        if lc.lv[i].kind != 'int':
            continue
        for w in ('lower', 'upper'):
            out.append(('T:same %s(%s)' % (w, i), lambda v, i=i, w=w: z3.Implies(S1 <= F1, z3.ForAll([k], z3.Implies(z3.And(k >= S1, k < S1 + zi(v.v(i))), sel(a[w], k) == sel(b[w], S2 - S1 + k)), patterns=[sel(a[w], k)]))))
    return out


def pre_mapping(c):
    c.st0.mem['out'] = Obj('out', {}, None, 'mem')
    c.ptr['out'] = Ptr('out')
    r = [Ptr('out'), axis(c, 'from'), axis(c, 'to')]
    gapless(c, 'to')
    c.assume(c.p['from.n'] < 1 << 30)
    return r


def mapped(c, x, m):
    a, n = c.p['to'], c.p['to.n']
    lo, up = a['lower'], a['upper']
    return z3.And(m >= 0, m < n, z3.Or(z3.And(sel(lo, m) <= x, x < sel(up, m)), z3.And(x < sel(lo, 0), m == 0), z3.And(x >= sel(up, n - 1), m == n - 1)))


def post_mapping(c, o):
    if o.threw:
        return [('never throws', False)]
    m = o.st.mem['out'].cells
    mp, ce, bo = m[0], m[24], m[48]
    n, to, fc = c.p['from.n'], c.p['to'], c.p['from']['center']
    M, C, Bd, nb = mp.el.t, ce.el.t, bo.el.t, zi(bo.len)
    j, k = z3.Ints('j!p k!p')
    return [('one entry per cell', z3.And(zi(mp.len) == n, zi(ce.len) == n)),
            ('cell j maps to the cell that holds its centre, or the nearest one', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), mapped(c, sel(fc, j), sel(M, j))))),
            ('scaled centre', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), sel(C, j) == (sel(fc, j) - sel(to['lower'], sel(M, j))) / sel(to['width'], sel(M, j))))),
            ('the borders ascend up to the number of cells', z3.And(nb >= 1, sel(Bd, nb - 1) == n, z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < nb), sel(Bd, k - 1) < sel(Bd, k))), sel(Bd, 0) > 0)),
            ('cells within borders map to the same cell', z3.ForAll([j, k], z3.Implies(z3.And(j >= 1, j < n, k >= 0, k < nb, j < sel(Bd, k), z3.Or(k == 0, sel(Bd, k - 1) < j)), sel(M, j) == sel(M, j - 1)))),
            ('the mapping changes at each border', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nb - 1), sel(M, sel(Bd, k)) != sel(M, sel(Bd, k) - 1))))]


def t_mapping(lc, c):
    out = []
    j, k = z3.Ints('j!t k!t')
    to, fc, n = c.p['to'], c.p['from']['center'], c.p['from.n']
    lens = [x for x in lc.lv if lc.lv[x].kind == 'len']
    ints = [x for x in lc.lv if lc.lv[x].kind == 'int']
    arr = {l: l[:-4] + '.v' for l in lens if l[:-4] + '.v' in lc.arrs}
    for l in lens:
        for i in ints:
            out.append(('T:len(%s,%s)' % (l, i), lambda v, l=l, i=i: zi(v.v(l)) == zi(v.v(i))))
            out.append(('T:len<=(%s,%s)' % (l, i), lambda v, l=l, i=i: zi(v.v(l)) <= zi(v.v(i))))
    for x in ints:
        out.append(('T:cell(%s)' % x, lambda v, x=x: z3.And(zi(v.v(x)) >= 0, zi(v.v(x)) < c.p['to.n'])))
    isint = lambda an: lc.arrs[an](lc.entry.st, lc.entry.regs).sort().range() == I
    for l, an in arr.items():
        if isint(an):
            out.append(('T:map(%s)' % l, lambda v, l=l, an=an: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(v.v(l))), mapped(c, sel(fc, j), sel(v.arr(an), j))), **pat(v.arr(an), j))))
            for x in ints:
                out.append(('T:lastmap(%s,%s)' % (l, x), lambda v, l=l, an=an, x=x: z3.Implies(zi(v.v(l)) >= 1, zi(v.v(x)) == sel(v.arr(an), zi(v.v(l)) - 1))))
            for l2, an2 in arr.items():
                if not isint(an2):
                    out.append(('T:scaled(%s,%s)' % (l, l2), lambda v, l=l, an=an, an2=an2: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(v.v(l))), sel(v.arr(an2), j) == (sel(fc, j) - sel(to['lower'], sel(v.arr(an), j))) / sel(to['width'], sel(v.arr(an), j))))))
                elif l2 != l:
                    out.append(('T:border(%s,%s)' % (l, l2), lambda v, l=l, an=an, l2=l2, an2=an2: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(l2))), z3.And(sel(v.arr(an2), k) >= 1, sel(v.arr(an2), k) < zi(v.v(l)), sel(v.arr(an), sel(v.arr(an2), k)) != sel(v.arr(an), sel(v.arr(an2), k) - 1))))))
                    out.append(('T:closed(%s,%s)' % (l, l2), lambda v, l=l, an=an, l2=l2, an2=an2: z3.ForAll([j, k], z3.Implies(z3.And(j >= 1, k >= 0, k < zi(v.v(l2)), j < sel(v.arr(an2), k), z3.Or(k == 0, sel(v.arr(an2), k - 1) < j)), sel(v.arr(an), j) == sel(v.arr(an), j - 1)))))
                    out.append(('T:open(%s,%s)' % (l, l2), lambda v, l=l, an=an, l2=l2, an2=an2: z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < zi(v.v(l)), z3.Or(zi(v.v(l2)) == 0, sel(v.arr(an2), zi(v.v(l2)) - 1) < j)), sel(v.arr(an), j) == sel(v.arr(an), j - 1)))))
            out.append(('T:asc(%s)' % l, lambda v, l=l, an=an: z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < zi(v.v(l))), sel(v.arr(an), k - 1) < sel(v.arr(an), k)))))
            out.append(('T:ge(%s)' % l, lambda v, l=l, an=an: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(l))), sel(v.arr(an), k) >= 1))))
    return out


# ---- boxes
def box(c, name):
    v = {o: z3.Real('%s.%d' % (name, o)) for o in (0, 8, 16, 24)}
    c.st0.mem[name] = Obj(name, {o: FV(x, 8) for o, x in v.items()}, None, 'mem')
    c.p[name] = (v[0], v[16], v[8], v[24])  # x0 x1 y0 y1
    c.assume(z3.And(v[0] <= v[16], v[8] <= v[24]))
    c.ptr[name] = Ptr(name)
    return Ptr(name)


def pre_two(c):
    return [box(c, 'a'), box(c, 'b')]


def pre_op(c):
    return [box(c, 'out'), box(c, 'a'), box(c, 'b')]


def lt(a, b):
    return z3.And(a < b, z3.Not(Near(a, b)))


def le(a, b):
    return z3.Or(a <= b, Near(a, b), Near(b, a))


def boolpost(name, f):
    def post(c, o):
        if o.threw:
            return [('never throws', False)]
        sym = []
        return [(name, (zi(o.val.u) != 0) == f(c.p['a'], c.p.get('b')))]
    return post


def boxcells(o):
    m = o.st.mem['out'].cells
    return m[0].r, m[16].r, m[8].r, m[24].r


def post_unite(c, o):
    if o.threw:
        return [('never throws', False)]
    mn = lambda x, y: z3.If(x <= y, x, y)
    mx = lambda x, y: z3.If(x >= y, x, y)
    a, b, r = c.p['a'], c.p['b'], boxcells(o)
    return [('the smallest box around both', z3.And(r[0] == mn(a[0], b[0]), r[1] == mx(a[1], b[1]), r[2] == mn(a[2], b[2]), r[3] == mx(a[3], b[3])))]


def post_inter(c, o):
    if o.threw:
        return [('never throws', False)]
    mn = lambda x, y: z3.If(x <= y, x, y)
    mx = lambda x, y: z3.If(x >= y, x, y)
    a, b, r = c.p['a'], c.p['b'], boxcells(o)
    i = (mx(a[0], b[0]), mn(a[1], b[1]), mx(a[2], b[2]), mn(a[3], b[3]))
    some = z3.And(lt(i[0], i[1]), lt(i[2], i[3]))
    return [('the common part', z3.Implies(some, z3.And(*[r[k] == i[k] for k in range(4)]))),
            ('empty when there is none', z3.Implies(z3.Not(some), z3.And(*[r[k] == 0 for k in range(4)])))]


def pre_box4(c):
    return [box(c, 'out'), c.real('x1'), c.real('x2'), c.real('y1'), c.real('y2'), c.bool('se')]


def post_box4(c, o):
    if o.threw:
        return [('never throws', False)]
    x1, x2, y1, y2, se = (c.p[k] for k in ('x1', 'x2', 'y1', 'y2', 'se'))
    r = boxcells(o)
    return [('start/end as given', z3.Implies(se, z3.And(r[0] == x1, r[1] == x2, r[2] == y1, r[3] == y2))),
            ('centre -+ half the width', z3.Implies(z3.Not(se), z3.And(r[0] == x1 - x2 / 2, r[1] == x1 + x2 / 2, r[2] == y1 - y2 / 2, r[3] == y1 + y2 / 2)))]


def pre_boxv(c):
    return [box(c, 'out'), c.obj('v', VD, maxlen=1 << 30)]


def post_boxv(c, o):
    if o.threw:
        return [('never throws', False)]
    r = boxcells(o)
    v, n = c.p['v'].el.t, zi(c.p['v'].len)
    big = z3.RealVal(10 ** 30)
    return [('lower x', r[0] == z3.If(n > 0, sel(v, 0), -big)), ('lower y', r[2] == z3.If(n > 1, sel(v, 1), -big)),
            ('upper x', r[1] == z3.If(n > 2, sel(v, 2), big)), ('upper y', r[3] == z3.If(n > 3, sel(v, 3), big))]


def targets(thorough):
    out = []

    def add(name, fn, pre, post, **kw):
        kw.setdefault('contracts', CON(False))
        kw.setdefault('timeout', 30000)
        out.append(('grid', Target(name, fn, pre, post, **kw)))
    add('Axis::find', 'drv_find', pre_find(False), post_find, templates=[t_find(False)], about='first cell from the hint that holds the value or lies after it, for any tolerance')
    add('Axis::find [exact]', 'drv_find', pre_find(True), post_exact, contracts=CON(True), templates=[t_find(True)], about='the cell that contains the value, whatever the hint')
    add('RegularAxis', 'drv_regular', pre_regular, post_regular, templates=[t_regular], about='cell k is [start + k width, start + (k+1) width)')
    add('OrderedAxis', 'drv_ordered', pre_ordered, post_ordered, templates=[t_ordered], about='cells as given, as start/end or centre/width')
    add('Axis::makeAxis', 'drv_make', pre_make, post_make, contracts={**CON(True), **SHARED}, templates=[t_make], about='an axis of the cells given')
    # the overlapping cases take minutes of solver time each: thorough tier (quick: run-time contracts)
    # axes whose common cells differ are left to the run-time contracts (not decided reliably within the limit)
    cases = [(True, 'disjoint')]
    if thorough:
        cases += [(True, x + y) for x in '<>' for y in '><']
    for mt, cs in cases:
        if cs == 'disjoint':
            mt = False
        add('Axis::combine [%s%s]' % ('matching, ' if mt else '', cs if cs == 'disjoint' else 'this starts %s, ends %s' % ('first' if cs[0] == '<' else 'later', 'last' if cs[1] == '>' else 'earlier')),
            'drv_combine', pre_combine(mt, cs), post_combine(mt or cs == 'disjoint'), contracts=OPS, templates=[t_combine], budget=300, frames=False, soft=cs != 'disjoint', timeout=30000 if cs == 'disjoint' else 90000, about='the union of two axes and the place of each in it')
    OPS2 = {**OPS, r'^dp3::parmdb::Axis::subset\(double, double, unsigned long&\)': c_range}
    add('RegularAxis::doSubset', 'drv_subset', pre_subset, post_subset, contracts={**CON(True), **SHARED}, about='cells s..e, or the default axis')
    add('OrderedAxis::doSubset', 'drv_subset_o', pre_subset_o, post_subset_o, contracts={**CON(True), **SHARED}, about='cells s..e, or the default axis')
    add('Axis::subset of a range', 'drv_range', pre_range, post_range, contracts=OPS, about='exactly the cells that overlap the range')
    add('Axis::checkIntervals', 'drv_check', pre_check, post_check, contracts=OPS2, templates=[t_check], about='the cells of both axes in the overlap are the same')
    add('AxisMapping', 'drv_mapping', pre_mapping, post_mapping, contracts=OPS, templates=[t_mapping], budget=300, frames=False, about='the cell that holds the centre of each cell, and where that changes')
    add('Box::intersects', 'drv_intersects', pre_two, boolpost('a point of one lies inside the other', lambda a, b: z3.And(lt(b[0], a[1]), lt(a[0], b[1]), lt(b[2], a[3]), lt(a[2], b[3]))))
    add('Box::contains', 'drv_contains', pre_two, boolpost('all of the other lies inside', lambda a, b: z3.And(z3.Or(a[0] <= b[0], Near(b[0], a[0])), z3.Or(b[1] <= a[1], Near(b[1], a[1])), z3.Or(a[2] <= b[2], Near(b[2], a[2])), z3.Or(b[3] <= a[3], Near(b[3], a[3])))))
    add('Box::empty', 'drv_empty', lambda c: [box(c, 'a')], boolpost('no width or no height', lambda a, b: z3.Or(Near(a[0], a[1]), Near(a[2], a[3]))))
    eq = lambda a, b: z3.And(*[a[k] == b[k] for k in range(4)])
    add('Box ==', 'drv_eq', pre_two, boolpost('all corners equal', eq))
    add('Box !=', 'drv_ne', pre_two, boolpost('some corner differs', lambda a, b: z3.Not(eq(a, b))))
    add('Box <', 'drv_lt', pre_two, boolpost('by lower y, then lower x', lambda a, b: z3.Or(a[2] < b[2], z3.And(a[2] == b[2], a[0] < b[0]))))
    add('Box >', 'drv_gt', pre_two, boolpost('by lower y, then lower x', lambda a, b: z3.Or(a[2] > b[2], z3.And(a[2] == b[2], a[0] > b[0]))))
    add('Box |', 'drv_unite', pre_op, post_unite)
    add('Box &', 'drv_inter', pre_op, post_inter)
    add('Box from start/end or centre/width', 'drv_box4', pre_box4, post_box4)
    add('Box from a vector', 'drv_boxv', pre_boxv, post_boxv)
    return out
