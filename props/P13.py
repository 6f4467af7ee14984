"""Median (common/Median.h)."""
from unit import Target
from specs import *

UNITS = {'median': 'median.cc'}
NATIVE = 'P13.cc'
SEARCH_SECS = 6
BOUND = 'all vectors up to 8 values over small alphabets, random vectors up to 3000 values; float, double and int'
ASSUMPTIONS = ['values are not NaN; floating-point values treated as reals']
AR = z3.ArraySort(I, R)
# the values in ascending order; a permutation and its inverse
Srt = z3.Function('Srt', AR, I, AR)
Perm = z3.Function('Perm', AR, I, I, I)
Inv = z3.Function('Inv', AR, I, I, I)


def perm_facts(a, n, s):
    """a[0..n) is a rearrangement of the ascending sequence s"""
    i, j = z3.Ints('i!p j!p')
    P, Q = Perm(a, n, i), Inv(a, n, i)
    return [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(P >= 0, P < n, sel(a, i) == sel(s, P), Inv(a, n, P) == i)), patterns=[Perm(a, n, i)]),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(P >= 0, P < n, sel(a, i) == sel(s, P), Inv(a, n, P) == i)), patterns=[sel(a, i)]),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(Q >= 0, Q < n, sel(a, Q) == sel(s, i), Perm(a, n, Q) == i)), patterns=[Inv(a, n, i)]),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), sel(s, i) <= sel(s, j)), patterns=[z3.MultiPattern(sel(s, i), sel(s, j))])]


def whole(E, st, a):
    """(vector node, first, last) of an iterator range"""
    p, q = E.norm(st, a[0]), E.norm(st, a[-1])
    return E.cell_node(st, Ptr(p.root, p.path[:-2])), zi(p.path[-2]), zi(q.path[-2])


def rearrange(E, st, p, n):
    """replace the values by a rearrangement of them"""
    a, ln = n.el.t, zi(n.len)
    b = fresh('rearranged', AR)
    s = Srt(a, ln)
    for f in perm_facts(b, ln, s):
        st.assume(f)
    st.assume(Srt(b, ln) == s)
    o = st.mem[p.root].copy()
    st.mem[p.root] = o
    o.cells[p.path[0]] = VecN(n.shape, n.len, Leaf(n.el.shape, b))
    return b, s


def c_nth(E, st, a, i):
    """std::nth_element over the whole vector: position k gets the k-th value in
    order, what comes before is one of the k smaller ones"""
    E.assumptions.add('std::nth_element, std::max_element, std::min_element, std::sort as in the C++ standard')
    n, f, l = whole(E, st, [a[0], a[2]])
    k = zi(E.norm(st, a[1]).path[-2])
    E.oblige(st, z3.And(f == 0, l == zi(n.len), k >= 0, k <= zi(n.len)), 'nth_element: the whole vector')
    ln = zi(n.len)
    b, s = rearrange(E, st, E.norm(st, a[0]), n)
    x = z3.Int('x!n')
    st.assume(z3.Implies(k < ln, z3.And(sel(b, k) == sel(s, k), Perm(b, ln, k) == k, Inv(b, ln, k) == k)))
    st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k, k < ln), z3.And(Perm(b, ln, x) < k, Perm(b, ln, x) >= 0)), patterns=[Perm(b, ln, x)]))
    st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k, k < ln), z3.And(Inv(b, ln, x) < k, Inv(b, ln, x) >= 0)), patterns=[Inv(b, ln, x)]))
    st.assume(z3.ForAll([x], z3.Implies(z3.And(x > k, x < ln), Perm(b, ln, x) > k), patterns=[Perm(b, ln, x)]))
    return None


def c_sort(E, st, a, i):
    n, f, l = whole(E, st, [a[0], a[1]])
    E.oblige(st, z3.And(f == 0, l == zi(n.len)), 'sort: the whole vector')
    ln = zi(n.len)
    b, s = rearrange(E, st, E.norm(st, a[0]), n)
    x = z3.Int('x!n')
    st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < ln), sel(b, x) == sel(s, x)), patterns=[sel(b, x)]))
    return None


def extreme(big):
    def f(E, st, a, i):
        n, f, l = whole(E, st, [a[0], a[1]])
        p = E.norm(st, a[0])
        ln, b = zi(n.len), n.el.t
        E.oblige(st, z3.And(f >= 0, f < l, l <= ln), 'max/min_element: a nonempty range')
        m, x = fresh_int('extreme'), z3.Int('x!m')
        st.assume(z3.And(m >= f, m < l))
        st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= f, x < l), sel(b, x) <= sel(b, m) if big else sel(b, x) >= sel(b, m)), patterns=[sel(b, x)]))
        # name the place of the block's extreme value (a trigger for the facts above)
        st.assume(fresh_int('place') == Inv(b, ln, l - 1 if big else f))
        r = Ptr(p.root, p.path[:-2] + (m, p.path[-1]))
        return r
    return f


CON = {r'^void std::nth_element<': c_nth, r'^void std::sort<': c_sort}


def pre(c):
    a = c.obj('v', SVec(SFp(c.sz), c.sz), maxlen=1 << 40)
    n = c.p['v']
    ln = zi(n.len)
    s = Srt(n.el.t, ln)
    for f in perm_facts(n.el.t, ln, s):
        c.assume(f)
    c.p['s'], c.p['n'] = s, ln
    return [a]


def post(c, o):
    if o.threw:
        return [('never throws', False)]
    s, n = c.p['s'], c.p['n']
    h = n / 2
    v = o.val.r
    e = o.st.mem['v'].cells[0]
    r = [('empty: 0', z3.Implies(n == 0, v == 0)),
         ('odd: the middle value', z3.Implies(n % 2 == 1, v == sel(s, h))),
         ('even: the mean of the two middle values', z3.Implies(z3.And(n > 0, n % 2 == 0), v == (sel(s, h - 1) + sel(s, h)) / 2)),
         ('the vector still holds the same values', z3.And(zi(e.len) == n, Srt(e.el.t, n) == s))]
    return r


def targets(thorough):
    out = []
    for nm, sz in (('double', 8), ('float', 4)):
        def p(c, sz=sz):
            c.sz = sz
            return pre(c)
        out.append(('median', Target('median of %ss' % nm, 'drv_median_' + nm[0], p, post, contracts={**CON, r'max_element<': extreme(True), r'min_element<': extreme(False)},
                                     timeout=30000, budget=120, about='the median is the middle of the sorted values')))
    return out
