"""Assumed contracts of the C++ standard library, libm and compiler intrinsics.

Every function here is an *assumption* about a dependency (listed in the
evidence as used); nothing in this file talks about DP3 code.
"""
import re
import z3
from irparse import Unsupported, INT, FLOATS, Ty
from values import *
from engine import SpecFn, Dead, SIV, FMOD, is_nan, same, n_bytes, has_quant
from cppnames import canon, targs, split_top

MODELS = []
NPOS = (1 << 64) - 1
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AII = z3.ArraySort(I, I)


def model(rx):
    def deco(f):
        MODELS.append((re.compile(rx), f))
        return f
    return deco


def szt(e):
    return IV(64, u=simp(e))


def boolv(e):
    return IV(1, b=z3.simplify(e) if not has_quant(e) else e)


# ---------------------------------------------------------------- shapes
BASIC = {'double': SFp(8), 'float': SFp(4), 'long double': SFp(16), 'int': SInt(32, 's'), 'unsigned int': SInt(32), 'long': SInt(64, 's'),
         'unsigned long': SInt(64), 'short': SInt(16, 's'), 'unsigned short': SInt(16), 'char': SInt(8, 's'),
         'signed char': SInt(8, 's'), 'unsigned char': SInt(8), 'bool': SInt(8), 'long long': SInt(64, 's'),
         'unsigned long long': SInt(64), 'std::complex<double>': COMPLEXD, 'std::complex<float>': COMPLEXF,
         'std::string': STR, 'std::byte': SInt(8)}
_vecs = {}


def shape_of(E, t):
    t = canon(t).strip()
    t = re.sub(r'\bconst$', '', t).strip()
    t = re.sub(r'^const ', '', t).strip()
    if t in E.type_shapes:
        return E.type_shapes[t]
    if t in BASIC:
        return BASIC[t]
    if t.startswith('std::vector<') or t.startswith('aocommon::UVector<'):
        a = targs(t, t.split('<')[0])[0]
        if t not in _vecs:
            _vecs[t] = SVec(shape_of(E, a))
        return _vecs[t]
    if t.startswith('std::pair<'):
        return struct_shape([shape_of(E, a) for a in targs(t, 'std::pair')])
    if t.startswith('std::array<'):
        a, n = targs(t, 'std::array')
        s = shape_of(E, a)
        return struct_shape([s] * int(re.sub(r'\D', '', n)))
    for pre in ('class.', 'struct.'):
        if pre + t in E.mod.types:
            return llvm_shape(E, Ty('named', pre + t))
    if t in E.enums:
        return SInt(E.enums[t], 'u')
    raise Unsupported('shape of C++ type ' + t)


def align_of(s):
    if isinstance(s, SStruct):
        return max([align_of(x) for x in s.fields.values()] or [1])
    if isinstance(s, SVec):
        return 8
    return min(s.size, 16)


def struct_shape(parts):
    off, al, f = 0, 1, {}
    for s in parts:
        a = align_of(s)
        al = max(al, a)
        off = (off + a - 1) // a * a
        if isinstance(s, SStruct):
            for o, x in s.fields.items():
                f[off + o] = x
        else:
            f[off] = s
        off += s.size
    off = (off + al - 1) // al * al
    return SStruct(f, off)


def llvm_shape(E, t):
    if t.k == 'named':
        if t.a in E.type_shapes:
            return E.type_shapes[t.a]
        if re.match(r'class\.std::__cxx11::basic_string', t.a):
            return STR
        if re.match(r'(class|struct)\.std::(vector|__cxx11|map|unordered|list|shared_ptr|unique_ptr|function)', t.a):
            raise Unsupported('container member %s needs a declared shape' % t.a)
        t = E.mod.named(t.a)
    if t.k == 'int':
        return SInt(max(8, t.a), 'u')
    if t.k == 'fp':
        return SFp(FLOATS[t.a])
    if t.k in ('struct', 'arr'):
        f = {}
        for o, mt in E.members(t):
            if mt.k == 'arr' and mt.b.k == 'int' and mt.b.a == 8 and t.k == 'struct':
                continue            # padding
            s = llvm_shape(E, mt)
            if isinstance(s, SStruct):
                for oo, x in s.fields.items():
                    f[o + oo] = x
            else:
                f[o] = s
        return SStruct(f, E.mod.sizeof(t))
    raise Unsupported('shape of %r' % t)


# ---------------------------------------------------------------- spec functions used by string contracts
FindChar = SpecFn('FindChar', [AII, I, I, I], I, lambda a, c, p, e: z3.If(
    p >= e, z3.IntVal(-1), z3.If(z3.Select(a, p) == c, p, FindChar(a, c, p + 1, e))))


def lam(f):
    k = z3.Int('k!l')
    return z3.Lambda([k], f(k))


def vecn(E, st, p, what='container'):
    n = E.cell_node(st, p, what)
    if n is None:
        raise Unsupported('uninitialised %s' % what)
    if not isinstance(n, VecN):
        raise Unsupported('%s expected' % what)
    return n


def lenfact(st, n):
    l = zi(n.len)
    if not z3.is_int_value(l):
        st.assume(l >= 0)
        st.assume(l < (1 << 62))
    return n.len


def mkstr(ln, arr):
    return VecN(STR, zi(ln), Leaf(STR.elem, arr))


def cstr(E, st, p):
    """(len, array) of a C string; literal bytes or c_str() of a std::string"""
    o = E.get_root(st, p.root)
    if len(p.path) == 1 and p.path[0] == 0 or (len(p.path) == 3 and isinstance(p.path[1], int) and p.path[2] == 0):
        n = o.cells.get(p.path[0] if len(p.path) == 3 else 0)
        if isinstance(n, VecN) and id(n) in n_bytes:
            by = n_bytes[id(n)][1]
            off = p.path[1] if len(p.path) == 3 else 0
            by = by[off:]
            by = by[:by.index(0)]
            arr = z3.K(I, z3.IntVal(0))
            for i, b in enumerate(by):
                arr = z3.Store(arr, i, b if b < 128 else b - 256)
            return len(by), arr, by
        if str(p.root).startswith('@') and len(p.path) == 1 and isinstance(n, IV) and n.const() == 0:
            return 0, z3.K(I, z3.IntVal(0)), b''      # the empty literal
    raise Unsupported('C string from %r %r' % (p, o.cells))


def strarg(E, st, p):
    n = vecn(E, st, p, 'string')
    lenfact(st, n)
    return n.len, n.el.t


def str_eq(E, st, l1, a1, l2, a2, by1=None, by2=None):
    """z3 Bool for string equality"""
    by = by2 if by2 is not None else by1
    if by is not None:
        l, a = (l1, a1) if by2 is not None else (l2, a2)
        return z3.And(zi(l) == len(by), *[z3.Select(a, i) == (b if b < 128 else b - 256) for i, b in enumerate(by)])
    c1, c2 = const(simp(l1)), const(simp(l2))
    n = c1 if c1 is not None else c2
    if n is not None and n <= 64:
        return z3.And(zi(l1) == zi(l2), *[z3.Select(a1, i) == z3.Select(a2, i) for i in range(n)])
    if a1.eq(a2):
        return zi(l1) == zi(l2)
    # skolem encoding: eq <-> forall
    b = fresh('streq', B)
    k = z3.Int('k!s')
    sk = fresh_int('diff')
    st.assume(z3.Implies(b, zi(l1) == zi(l2)))
    st.assume(z3.Implies(z3.And(z3.Not(b), zi(l1) == zi(l2)), z3.And(sk >= 0, sk < zi(l1), z3.Select(a1, sk) != z3.Select(a2, sk))))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(b, k >= 0, k < zi(l1)), z3.Select(a1, k) == z3.Select(a2, k))))
    return b


def alias_str(E, st, p):
    try:
        n = E.cell_node(st, p)
    except Unsupported:
        n = None
    if isinstance(n, VecN) and isinstance(n.shape, SStr):
        return True
    return False


S = r'std::string'


# ctors
@model(r'^std::string::basic_string\(\)$')
def _(E, st, a, i):
    E.set_container(st, a[0], mkstr(0, z3.K(I, z3.IntVal(0))))


@model(r'^std::string::(basic_string|operator=|assign)\(std::string(&&| const&)(, std::allocator<char> const&)?\)$')
def _(E, st, a, i):
    n = vecn(E, st, a[1], 'string')
    E.set_container(st, a[0], n)
    if '&&' in i.dem and not (a[0].root == a[1].root and len(a[0].path) == len(a[1].path) and all(same(x, y) for x, y in zip(a[0].path, a[1].path))):
        E.set_container(st, a[1], mkstr(0, z3.K(I, z3.IntVal(0))))
    return a[0]


@model(r'^std::string::(basic_string<std::allocator<char>>|basic_string|operator=|assign)\(char const\*(, std::allocator<char> const&)?\)$')
def _(E, st, a, i):
    l, arr, by = cstr(E, st, a[1])
    E.set_container(st, a[0], mkstr(l, arr))
    return a[0]


@model(r'^std::string::basic_string\(std::string const&, unsigned long(, unsigned long)?(, std::allocator<char> const&)?\)$')
def _(E, st, a, i):
    n = a[3] if i.dem.count('unsigned long') == 2 else IV.c(64, NPOS)
    return substr(E, st, a[0], a[1], a[2], n)


@model(r'^std::string::(basic_string|basic_string<std::allocator<char>>)\(unsigned long, char(, std::allocator<char> const&)?\)$')
def _(E, st, a, i):
    E.set_container(st, a[0], mkstr(a[1].u, z3.K(I, zi(a[2].s))))


@model(r'^std::string::(~basic_string|reserve|shrink_to_fit)\(')
def _(E, st, a, i):
    return None


@model(r'^std::string::(size|length)\(\) const$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'string')
    return szt(lenfact(st, n))


@model(r'^std::string::(capacity|max_size)\(\) const$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'string')
    x = fresh_int('cap')
    st.assume(z3.And(x >= zi(lenfact(st, n)), x < (1 << 63)))
    return szt(x)


@model(r'^std::string::empty\(\) const$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'string')
    return boolv(zi(lenfact(st, n)) == 0)


@model(r'^std::string::operator\[\]\(unsigned long\)( const)?$')
def _(E, st, a, i):
    vecn(E, st, a[0], 'string')
    return Ptr(a[0].root, a[0].path + (a[1].u, 0))


@model(r'^std::string::(at)\(unsigned long\)( const)?$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'string')
    idx, l = a[1].u, lenfact(st, n)
    return guarded_throw(E, st, zi(idx) < zi(l), Ptr(a[0].root, a[0].path + (idx, 0)), '_ZTISt12out_of_range')


def guarded_throw(E, st, ok, val, ty):
    ok = z3.simplify(ok)
    out = []
    if E.feasible(st, z3.Not(ok)):
        s2 = st.fork()
        s2.assume(z3.simplify(z3.Not(ok)))
        out.append(('throw', s2, ty))
    if E.feasible(st, ok):
        st.assume(ok)
        out.append(('ret', st, val))
    return out


@model(r'^std::string::(c_str|data|begin|cbegin)\(\)( const)?$')
def _(E, st, a, i):
    vecn(E, st, a[0], 'string')
    return Ptr(a[0].root, a[0].path + (0, 0))


@model(r'^std::string::(end|cend)\(\)( const)?$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'string')
    return Ptr(a[0].root, a[0].path + (simp(lenfact(st, n)), 0))


@model(r'^std::string::(front|back)\(\)( const)?$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'string')
    l = lenfact(st, n)
    E.oblige(st, zi(l) > 0, 'front/back of empty string')
    return Ptr(a[0].root, a[0].path + ((0 if '::front' in i.dem else simp(zi(l) - 1)), 0))


def find_char(E, st, l, arr, c, pos):
    """first index >= pos with arr[i]==c, else npos (as unsigned 64)"""
    r = fresh_int('find')
    k = z3.Int('k!s')
    l, pos = zi(l), zi(pos)
    fc = FindChar(arr, zi(c), pos, l)
    st.assume(fc == z3.If(r == NPOS, -1, r))
    st.assume(z3.Or(r == NPOS, z3.And(r >= pos, r < l, z3.Select(arr, r) == zi(c))))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= pos, k < z3.If(r == NPOS, l, r)), z3.Select(arr, k) != zi(c)),
                        patterns=[z3.Select(arr, k)] if pattern_ok(arr) else []))
    return szt(r)


def pattern_ok(arr):
    return z3.is_const(arr) and arr.decl().kind() == z3.Z3_OP_UNINTERPRETED


@model(r'^std::string::find\(char, unsigned long\) const$')
def _(E, st, a, i):
    l, arr = strarg(E, st, a[0])
    return find_char(E, st, l, arr, a[1].s, a[2].u)


def inset(E, st, c, p, kind):
    """membership of char term c in the delimiter set"""
    if kind == 'char':
        return c == zi(p.s)
    if kind == 'c':
        l, arr, by = cstr(E, st, p)
        return z3.Or(*[c == (b if b < 128 else b - 256) for b in by]) if by else z3.BoolVal(False)
    l, arr = strarg(E, st, p)
    return InSet(arr, zi(l), c)


InSet = z3.Function('InSet', AII, I, I, B)
# first position >= p of a[0..l) in / outside the set of characters d[0..n); l if there is none
FindSet = SpecFn('FindSet', [AII, I, AII, I, I], I, lambda a, l, d, n, p: z3.If(p >= l, l, z3.If(InSet(d, n, z3.Select(a, p)), p, FindSet(a, l, d, n, p + 1))))
FindNotSet = SpecFn('FindNotSet', [AII, I, AII, I, I], I, lambda a, l, d, n, p: z3.If(p >= l, l, z3.If(InSet(d, n, z3.Select(a, p)), FindNotSet(a, l, d, n, p + 1), p)))


@model(r'^std::string::find_(first|last)_(not_)?of\((std::string const&|char const\*|char), unsigned long\) const$')
def _(E, st, a, i):
    m = re.match(r'^std::string::find_(first|last)_(not_)?of\((std::string const&|char const\*|char),', canon(i.dem))
    first, neg = m.group(1) == 'first', bool(m.group(2))
    kind = {'std::string const&': 's', 'char const*': 'c', 'char': 'char'}[m.group(3)]
    l, arr = strarg(E, st, a[0])
    l = zi(l)
    pos = zi(a[2].u)
    r = fresh_int('ffo')
    k = z3.Int('k!s')

    def hit(c):
        x = inset(E, st, c, a[1], kind)
        return z3.Not(x) if neg else x
    if first:
        if kind == 's':
            dl, darr = strarg(E, st, a[1])
            st.assume((FindNotSet if neg else FindSet)(arr, l, darr, zi(dl), pos) == z3.If(r == NPOS, l, r))
        st.assume(z3.Or(r == NPOS, z3.And(r >= pos, r < l, hit(z3.Select(arr, r)))))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= pos, k < z3.If(r == NPOS, l, r)), z3.Not(hit(z3.Select(arr, k))))))
    else:
        hi = z3.If(pos >= l, l - 1, pos)
        st.assume(z3.Or(r == NPOS, z3.And(r >= 0, r <= hi, hit(z3.Select(arr, r)))))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= z3.If(r == NPOS, 0, r + 1), k <= hi), z3.Not(hit(z3.Select(arr, k))))))
    return szt(r)


def substr(E, st, out, src, pos, n):
    l, arr = strarg(E, st, src)
    l, pos, n = zi(l), zi(pos.u), zi(n.u)
    res = []
    ok = pos <= l
    if E.feasible(st, z3.Not(ok)):
        s2 = st.fork()
        s2.assume(z3.simplify(z3.Not(ok)))
        res.append(('throw', s2, '_ZTISt12out_of_range'))
    if E.feasible(st, ok):
        st.assume(z3.simplify(ok))
        m = l - pos
        if E.implied(st, n <= m):
            ln = n
        elif E.implied(st, n >= m):
            ln = m
        else:
            ln = z3.If(n < m, n, m)
        E.set_container(st, out, mkstr(simp(ln), arr if const(simp(pos)) == 0 else lam(lambda k: z3.Select(arr, k + pos))))
        res.append(('ret', st, out))
    return res


@model(r'^std::string::substr\(unsigned long, unsigned long\) const$')
def _(E, st, a, i):
    return substr(E, st, a[0], a[1], a[2], a[3])


def concat(E, st, parts):
    """parts: list of (len, arr)"""
    parts = [(simp(l), x) for l, x in parts]
    parts = [(l, x) for l, x in parts if l != 0] or [(0, z3.K(I, z3.IntVal(0)))]
    if len(parts) == 1:
        return mkstr(*parts[0])
    tot = simp(z3.Sum([zi(l) for l, _ in parts]))

    def at(k):
        off, e = zi(0), None
        offs = []
        for l, x in parts:
            offs.append((off, x))
            off = off + zi(l)
        e = z3.Select(offs[-1][1], k - offs[-1][0])
        for j in range(len(parts) - 2, -1, -1):
            e = z3.If(k < offs[j + 1][0], z3.Select(offs[j][1], k - offs[j][0]), e)
        return e
    return mkstr(tot, lam(at))


def appendarg(E, st, args, name):
    """string-like argument of append / += / operator+"""
    if name == 'char':
        return 1, z3.K(I, zi(args.s))
    if name == 'char const*':
        l, arr, _ = cstr(E, st, args)
        return l, arr
    return strarg(E, st, args)


@model(r'^std::string::(operator\+=|append)\((std::string const&|char const\*|char)\)$')
def _(E, st, a, i):
    k = re.search(r'\((std::string const&|char const\*|char)\)$', canon(i.dem)).group(1)
    E.set_container(st, a[0], concat(E, st, [strarg(E, st, a[0]), appendarg(E, st, a[1], k)]))
    return a[0]


@model(r'^std::string::push_back\(char\)$')
def _(E, st, a, i):
    l, arr = strarg(E, st, a[0])
    E.set_container(st, a[0], mkstr(simp(zi(l) + 1), z3.Store(arr, zi(l), zi(a[1].s))))


@model(r'^std::string::clear\(\)$')
def _(E, st, a, i):
    E.set_container(st, a[0], mkstr(0, z3.K(I, z3.IntVal(0))))


@model(r'^std::string std::operator\+<char>\((std::string const&|std::string&&|char const\*|char), (std::string const&|std::string&&|char const\*|char)\)$')
def _(E, st, a, i):
    m = re.search(r'\((std::string const&|std::string&&|char const\*|char), (std::string const&|std::string&&|char const\*|char)\)$', canon(i.dem))
    f = lambda x, k: appendarg(E, st, x, 'char' if k == 'char' else 'char const*' if '*' in k else 's')
    E.set_container(st, a[0], concat(E, st, [f(a[1], m.group(1)), f(a[2], m.group(2))]))
    return a[0]


@model(r'std::operator(==|!=)<char>\((std::string const&|char const\*), (std::string const&|char const\*)\)$')
def _(E, st, a, i):
    m = re.search(r'operator(==|!=)<char>\((std::string const&|char const\*), (std::string const&|char const\*)\)$', canon(i.dem))
    f = lambda x, k: cstr(E, st, x) if '*' in k else strarg(E, st, x) + (None,)
    l1, a1, b1 = f(a[0], m.group(2))
    l2, a2, b2 = f(a[1], m.group(3))
    e = str_eq(E, st, l1, a1, l2, a2, b1, b2)
    return boolv(e if m.group(1) == '==' else z3.Not(e))


@model(r'^std::string::compare\((std::string const&|char const\*)\) const$')
def _(E, st, a, i):
    l1, a1 = strarg(E, st, a[0])
    l2, a2, b2 = cstr(E, st, a[1]) if '*' in i.dem.split('compare')[1] else strarg(E, st, a[1]) + (None,)
    e = str_eq(E, st, l1, a1, l2, a2, None, b2)
    r = fresh_int('cmp')
    st.assume(z3.And(r >= -(1 << 31), r < (1 << 31), (r == 0) == e))
    return IV(32, s=r)


# ---------------------------------------------------------------- vectors
VEC = r'^(std::vector|aocommon::UVector)<'


def velem(E, i):
    d = canon(i.dem)
    m = re.search(r'(std::vector|aocommon::UVector)<', d)
    t = targs(d, m.group(1))[0]
    if t == 'bool':
        raise Unsupported('std::vector<bool>')
    return shape_of(E, t)


def vshape(E, i):
    d = canon(i.dem)
    m = re.search(r'(std::vector|aocommon::UVector)<', d)
    return shape_of(E, m.group(1) + '<' + targs(d, m.group(1))[0] + '>')


def const_arr_node(n, k=1):
    """node n (0 dims) replicated over one index"""
    return map_node(lambda t: z3.K(I, zi(t) if not isinstance(t, z3.ExprRef) else t), n)


def emptyvec(sh):
    return VecN(sh, z3.IntVal(0), const_node(sh.elem, 1))


@model(VEC + r'.*>::(vector|UVector)\((std::allocator<.*> const&)?\)$')
def _(E, st, a, i):
    E.set_container(st, a[0], emptyvec(vshape(E, i)))


@model(VEC + r'.*>::(vector|UVector)\(unsigned long(, std::allocator<.*> const&)?\)$')
def _(E, st, a, i):
    sh = vshape(E, i)
    n = VecN(sh, zi(a[1].u), const_node(sh.elem, 1) if 'UVector' not in i.dem else mk_node(sh.elem, 1, 'uninit'))
    E.set_container(st, a[0], n)


@model(VEC + r'.*>::(vector|UVector|assign)\(unsigned long, .* const&(, std::allocator<.*> const&)?\)$')
def _(E, st, a, i):
    sh = vshape(E, i)
    v = E.read_node(st, a[2], sh.elem)
    E.set_container(st, a[0], VecN(sh, zi(a[1].u), const_arr_node(v)))


@model(VEC + r'.*>::(vector|UVector|operator=)\((std::vector|aocommon::UVector)<.*>( const&|&&)\)$')
def _(E, st, a, i):
    n = vecn(E, st, a[1], 'vector')
    E.set_container(st, a[0], n)
    if '&&' in i.dem:
        E.set_container(st, a[1], VecN(n.shape, z3.IntVal(0), n.el))
    return a[0]


@model(VEC + r'.*>::(vector|operator=)\(std::initializer_list<.*>(, std::allocator<.*> const&)?\)$')
def _(E, st, a, i):
    sh = vshape(E, i)
    ptr, n = a[1], a[2]
    c = n.const()
    if c is None:
        raise Unsupported('symbolic initializer_list')
    el = const_node(sh.elem, 1)
    for k in range(c):
        el = n_store(el, k, E.read_node(st, E.padd(st, ptr, k * sh.elem.size), sh.elem))
    E.set_container(st, a[0], VecN(sh, z3.IntVal(c), el))
    return a[0]


@model(r'^std::vector<.*>::vector<__gnu_cxx::__normal_iterator<(.*)>, void>\(__gnu_cxx::__normal_iterator<\1>, __gnu_cxx::__normal_iterator<\1>, ')
def _(E, st, a, i):
    # vector(first, last) over a range of a vector
    sh = vshape(E, i)
    p, q = E.norm(st, a[1]), E.norm(st, a[2])
    if p.root != q.root or len(p.path) < 3 or len(p.path) != len(q.path) or p.path[-1] != 0 or q.path[-1] != 0 or not all(same(x, y) for x, y in zip(p.path[:-2], q.path[:-2])):
        raise Unsupported('vector of an iterator range')
    n = vecn(E, st, Ptr(p.root, p.path[:-2]), 'vector')
    if type(n.shape.elem) is not type(sh.elem) or n.shape.elem.size != sh.elem.size:
        raise Unsupported('vector of an iterator range of another type')
    b, e = zi(p.path[-2]), zi(q.path[-2])
    E.oblige(st, z3.And(b >= 0, b <= e, e <= zi(lenfact(st, n))), 'iterator range within the vector')
    E.set_container(st, a[0], VecN(sh, simp_t(e - b), map_node(lambda t: lam(lambda k: z3.Select(t, b + k)), n.el)))


@model(VEC + r'.*>::(~vector|~UVector|reserve|shrink_to_fit)\(')
def _(E, st, a, i):
    return None


@model(VEC + r'.*>::(size|capacity)\(\) const$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    if '::capacity' in i.dem:
        x = fresh_int('cap')
        st.assume(z3.And(x >= zi(n.len), x < (1 << 62)))
        return szt(x)
    return szt(lenfact(st, n))


@model(VEC + r'.*>::empty\(\) const$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    return boolv(zi(lenfact(st, n)) == 0)


@model(VEC + r'.*>::operator\[\]\(unsigned long\)( const)?$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    E.bound(st, n, a[1].u, 'vector[]')
    return Ptr(a[0].root, a[0].path + (a[1].u, 0))


@model(VEC + r'.*>::at\(unsigned long\)( const)?$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    return guarded_throw(E, st, zi(a[1].u) < zi(lenfact(st, n)), Ptr(a[0].root, a[0].path + (a[1].u, 0)), '_ZTISt12out_of_range')


@model(VEC + r'.*>::(begin|cbegin|data)\(\)( const)?$')
def _(E, st, a, i):
    vecn(E, st, a[0], 'vector')
    return Ptr(a[0].root, a[0].path + (0, 0))


@model(VEC + r'.*>::(end|cend)\(\)( const)?$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    return Ptr(a[0].root, a[0].path + (simp(lenfact(st, n)), 0))


@model(VEC + r'.*>::(front|back)\(\)( const)?$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    l = lenfact(st, n)
    E.oblige(st, zi(l) > 0, 'front/back of empty vector')
    return Ptr(a[0].root, a[0].path + ((0 if '::front' in i.dem else simp(zi(l) - 1)), 0))


def push(E, st, vp, node):
    n = vecn(E, st, vp, 'vector')
    l = lenfact(st, n)
    E.set_container(st, vp, VecN(n.shape, simp_t(zi(l) + 1), n_store(n.el, l, node)))
    return Ptr(vp.root, vp.path + (simp(l), 0))


def simp_t(e):
    return zi(simp(e))


@model(VEC + r'.*>::push_back\(.*\)$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    push(E, st, a[0], E.read_node(st, a[1], n.shape.elem))


@model(VEC + r'.*>::(reference|.*)? ?emplace_back<.*>\(.*\)$|^.*& std::vector<.*>::emplace_back<.*>\(.*\)$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    d = canon(i.dem)
    ar = targs(d, 'emplace_back')
    el = n.shape.elem
    if len(a) == 1:
        return push(E, st, a[0], const_node(el, 0))
    if len(a) == 2 and isinstance(el, (SInt, SFp)):
        t = ar[0].rstrip('&').strip()
        sh = shape_of(E, t)
        v = E.load(st, a[1], INT(sh.w) if isinstance(sh, SInt) else Ty('fp', {4: 'float', 8: 'double'}[sh.size]))
        if isinstance(sh, SInt) and isinstance(el, SInt):
            if sh.w != el.w:
                v = E.trunc(v, el.w, st) if sh.w > el.w else IV(el.w, u=v.u) if sh.rep == 'u' else IV(el.w, s=v.s)
        elif isinstance(sh, SInt):
            v = FV(z3.ToReal(zi(v.s if sh.rep == 's' else v.u)), el.size)
        return push(E, st, a[0], value_leaf(el, v))
    if len(a) == 2:
        t = ar[0].rstrip('&').strip()
        t = re.sub(r' const$', '', t)
        sh = shape_of(E, t)
        if type(sh) is type(el) and sh.size == el.size:
            return push(E, st, a[0], E.read_node(st, a[1], el))
    raise Unsupported('emplace_back ' + d)


@model(VEC + r'.*>::pop_back\(\)$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    l = lenfact(st, n)
    E.oblige(st, zi(l) > 0, 'pop_back of empty vector')
    E.set_container(st, a[0], VecN(n.shape, simp_t(zi(l) - 1), n.el))


@model(VEC + r'.*>::clear\(\)$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    E.set_container(st, a[0], VecN(n.shape, z3.IntVal(0), n.el))


def at_end(E, st, vec, n, pos):
    p, v = E.norm(st, pos), E.norm(st, vec)
    if p.root != v.root or len(p.path) != len(v.path) + 2 or p.path[-1] != 0 or not all(same(x, y) for x, y in zip(p.path[:-2], v.path)):
        raise Unsupported('insert elsewhere')
    ln = zi(lenfact(st, n))
    if not E.implied(st, zi(p.path[-2]) == ln):
        raise Unsupported('insert not at the end')
    return ln


@model(r'(std::vector|aocommon::UVector)<.*>::insert<(.*) const\*, void>\(__gnu_cxx::__normal_iterator<.*>, \2 const\*, \2 const\*\)$')
def _(E, st, a, i):
    # v.insert(v.end(), first, last) from an array
    n = vecn(E, st, a[0], 'vector')
    ln = at_end(E, st, a[0], n, a[1])
    p, q = E.norm(st, a[2]), E.norm(st, a[3])
    if p.root is None or p.root != q.root or len(p.path) != 3 or len(q.path) != 3 or p.path[-1] != 0 or q.path[-1] != 0:
        raise Unsupported('insert of a range')
    src = E.get_root(st, p.root).cells[p.path[0]]
    if not isinstance(src, VecN) or type(src.shape.elem) is not type(n.shape.elem) or src.shape.elem.size != n.shape.elem.size:
        raise Unsupported('insert of a range of another type')
    b, e = zi(p.path[1]), zi(q.path[1])
    E.oblige(st, z3.And(b >= 0, b <= e, e <= zi(src.len)), 'inserted range within its array')
    el = zip_node(lambda t, f: lam(lambda k: z3.If(k < ln, z3.Select(t, k), z3.Select(f, b + k - ln))), n.el, src.el)
    E.set_container(st, a[0], VecN(n.shape, simp_t(ln + e - b), el))
    return Ptr(a[0].root, a[0].path + (ln, 0))


@model(r'(std::vector|aocommon::UVector)<.*>::insert\(__gnu_cxx::__normal_iterator<.*>, unsigned long, .* const&\)$')
def _(E, st, a, i):
    # v.insert(v.end(), count, value)
    n = vecn(E, st, a[0], 'vector')
    ln = at_end(E, st, a[0], n, a[1])
    v = E.read_node(st, a[3], n.shape.elem)
    el = zip_node(lambda t, f: lam(lambda k: z3.If(k < ln, z3.Select(t, k), f)), n.el, v)
    E.set_container(st, a[0], VecN(n.shape, simp_t(ln + zi(a[2].u)), el))
    return Ptr(a[0].root, a[0].path + (ln, 0))


@model(VEC + r'.*>::resize\(unsigned long(, .*)?\)$')
def _(E, st, a, i):
    n = vecn(E, st, a[0], 'vector')
    old, new = zi(lenfact(st, n)), zi(a[1].u)
    fill = E.read_node(st, a[2], n.shape.elem) if len(a) > 2 else const_node(n.shape.elem, 0)
    if E.implied(st, new <= old):
        el = n.el
    elif const(simp(old)) == 0:
        el = const_arr_node(fill)
    else:
        el = zip_node(lambda t, f: lam(lambda k: z3.If(k < old, z3.Select(t, k), f)), n.el, fill)
    E.set_container(st, a[0], VecN(n.shape, new, el))


@model(r'^(std::vector|std::string)(<.*>)?::swap\(')
def _(E, st, a, i):
    n1, n2 = vecn(E, st, a[0]), vecn(E, st, a[1])
    E.set_container(st, a[0], n2)
    E.set_container(st, a[1], n1)


# allocators
@model(r'^std::(__new_)?allocator<.*>::~?(__new_)?allocator\(|^std::__new_allocator<.*>::~?__new_allocator\(|^std::allocator<.*>::allocator<')
def _(E, st, a, i):
    return None


@model(r'^std::move<|^(.*&& )?std::(move|forward)<.*>\(|^.*std::__addressof<|^.*std::addressof<|^std::launder')
def _(E, st, a, i):
    return a[0]


# ---------------------------------------------------------------- std::min/max
@model(r'^(.* )?(const& )?std::(max|min)<[^,]*>\(([^,]*) const&, \4 const&\)$')
def _(E, st, a, i):
    d = canon(i.dem)
    m = re.search(r'std::(max|min)<(.*?)>\(', d)
    sh = shape_of(E, m.group(2))
    ty = INT(sh.w) if isinstance(sh, SInt) else Ty('fp', {4: 'float', 8: 'double'}[sh.size])
    x, y = E.load(st, a[0], ty), E.load(st, a[1], ty)
    if isinstance(sh, SFp):
        c = x.r < y.r
        e = FV(z3.If(c, y.r, x.r) if m.group(1) == 'max' else z3.If(z3.simplify(y.r < x.r), y.r, x.r), sh.size)
    else:
        u = sh.rep != 's'
        p, q = (zi(x.u), zi(y.u)) if u else (zi(x.s), zi(y.s))
        v = simp(z3.If(p < q, q, p) if m.group(1) == 'max' else z3.If(q < p, q, p))
        e = IV(sh.w, u=v) if u else IV(sh.w, s=v)
    r = Ptr(E.new_root(st, 'minmax', kind='alloca'))
    E.store(st, r, e)
    return r


# ---------------------------------------------------------------- memory
@model(r'^operator new(\[\])?\(unsigned long\)$')
def _(E, st, a, i):
    r = E.new_root(st, 'heap', kind='heap')
    return Ptr(r)


@model(r'^operator delete')
def _(E, st, a, i):
    return None


@model(r'^(llvm\.(memcpy|memmove)\.|memcpy$|memmove$)')
def _(E, st, a, i):
    dst, src, n = a[0], a[1], a[2]
    c = n.const()
    if c == 0:
        return a[0]
    if c is None:
        return memcpy_sym(E, st, dst, src, n)
    copy_bytes(E, st, dst, src, c)
    return a[0]


def copy_bytes(E, st, dst, src, n):
    src = E.norm(st, src)
    if len(src.path) == 1:
        o = E.get_root(st, src.root)
        base = src.path[0]
        items = [(k - base, c) for k, c in o.cells.items() if base <= k < base + n]
        if o.kind == 'zero' and not items:
            raise Unsupported('memcpy from zero-initialised global')
        d2 = E.norm(st, dst)
        if len(d2.path) == 1:
            do = E.get_root(st, d2.root).copy()
            for k in [k for k in do.cells if d2.path[0] <= k < d2.path[0] + n]:
                del do.cells[k]
            st.mem[d2.root] = do
            E.record_write(d2.root, d2.path, 'val')
        for k, c in items:
            if isinstance(c, VecN):
                if getattr(c.shape, 'raw', False) and len(d2.path) == 1:
                    E.set_container(st, E.padd(st, dst, k), c)
                    continue
                raise Unsupported('memcpy of container')
            E.store(st, E.padd(st, dst, k), c)
        return
    es = E.elem_size(st, src)
    done = 0
    while done < n:
        p = E.padd(st, src, done)
        off = p.path[-1]
        el = E.cell_node(st, Ptr(p.root, p.path[:-2]), 'memcpy').el if len(p.path) == 3 else None
        offs = leaf_offs(el.shape if not isinstance(el, StructN) else el) if el is not None else None
        if offs is None:
            nd = E.elem_leaf(st, p, 'memcpy')
            if not isinstance(nd, Leaf):
                raise Unsupported('memcpy source')
            E.store(st, E.padd(st, dst, done), leaf_value(nd))
            done += nd.shape.size
            continue
        take = min(es - off, n - done)
        for o in offs:
            if off <= o < off + take:
                nd = E.elem_leaf(st, Ptr(p.root, p.path[:-1] + (o,)), 'memcpy')
                while isinstance(nd, StructN):
                    nd = E.field(nd, 0)
                if not isinstance(nd, Leaf):
                    raise Unsupported('memcpy of container element')
                E.store(st, E.padd(st, dst, done + o - off), leaf_value(nd))
        done += take


def leaf_offs(n):
    if isinstance(n, StructN):
        out = []
        for o, x in n.f.items():
            if isinstance(x, StructN):
                out += [o + k for k in leaf_offs(x)]
            else:
                out.append(o)
        return sorted(out)
    return [0]


def memcpy_sym(E, st, dst, src, n):
    if len(dst.path) == 1 or len(src.path) == 1:
        dst, src = E.norm(st, dst), E.norm(st, src)
    if len(dst.path) == 1 or len(src.path) == 1:
        raise Unsupported('symbolic memcpy on plain memory')
    es, es2 = E.elem_size(st, dst), E.elem_size(st, src)
    if es != es2 or dst.path[-1] or src.path[-1]:
        raise Unsupported('symbolic memcpy with different elements')
    sc = getattr(n, 'scaled', None)
    cnt = None
    if sc and sc[1] % es == 0:
        cnt = zi(sc[0]) * (sc[1] // es)
    else:
        e = zi(n.u if n.has_u else n.s)
        from engine import linear_mod
        a = linear_mod(e, es)
        if a and a[1] == 0:
            cnt = zi(a[0])
        else:
            cnt = e / es
    d0, s0 = zi(dst.path[-2]), zi(src.path[-2])
    dv = E.cell_node(st, Ptr(dst.root, dst.path[:-2]))
    sv = E.cell_node(st, Ptr(src.root, src.path[:-2]))
    E.oblige(st, z3.Or(cnt == 0, z3.And(d0 >= 0, d0 + cnt <= zi(dv.len), s0 >= 0, s0 + cnt <= zi(sv.len))), 'memcpy in bounds')
    new = zip_node(lambda d, s: lam(lambda k: z3.If(z3.And(k >= d0, k < d0 + cnt), z3.Select(s, k - d0 + s0), z3.Select(d, k))), dv.el, sv.el)
    E.set_container(st, Ptr(dst.root, dst.path[:-2]), VecN(dv.shape, dv.len, new))
    return dst


@model(r'^(llvm\.memset\.|memset$)')
def _(E, st, a, i):
    dst, v, n = a[0], a[1], a[2]
    if v.const() != 0:
        raise Unsupported('memset non-zero')
    c = n.const()
    d2 = E.norm(st, dst)
    if len(d2.path) == 1:
        if c is None:
            raise Unsupported('symbolic memset')
        o = E.get_root(st, d2.root).copy()
        for k in [k for k in o.cells if d2.path[0] <= k < d2.path[0] + c]:
            if not isinstance(o.cells[k], (IV, FV, Ptr, type(UNDEF))):
                raise Unsupported('memset over container')
            o.cells[k] = zero_like(o.cells[k])
        if not any(d2.path[0] <= k < d2.path[0] + c for k in o.cells):
            o.kind = 'zero' if not o.cells and d2.path[0] == 0 else o.kind
            if o.cells:
                for k in range(d2.path[0], d2.path[0] + c, 8 if c % 8 == 0 else 4 if c % 4 == 0 else 1):
                    o.cells[k] = IV.c(64 if c % 8 == 0 else 32 if c % 4 == 0 else 8, 0)
        st.mem[d2.root] = o
        E.record_write(d2.root, d2.path, 'val')
        return a[0]
    raise Unsupported('memset of elements')


def zero_like(c):
    if isinstance(c, IV):
        return IV.c(c.w, 0)
    if isinstance(c, FV):
        return FV(z3.RealVal(0), c.sz)
    return NULL


# ---------------------------------------------------------------- ctype
def char_class(ranges):
    def f(c):
        return z3.Or(*[z3.And(c >= lo, c <= hi) if lo != hi else c == lo for lo, hi in ranges])
    return f


is_space = char_class([(9, 13), (32, 32)])
is_digit = char_class([(48, 57)])
is_alpha = char_class([(65, 90), (97, 122)])
is_alnum = char_class([(48, 57), (65, 90), (97, 122)])


@model(r'^(isspace|isdigit|isalpha|isalnum)$')
def _(E, st, a, i):
    c = zi(a[0].s)
    E.assumptions.add('ctype functions: "C" locale; negative char arguments classify as false')
    b = {'isspace': is_space, 'isdigit': is_digit, 'isalpha': is_alpha, 'isalnum': is_alnum}[i.dem](c)
    r = fresh_int('ct')
    st.assume(z3.And(r >= 0, r < 65536, (r != 0) == b))
    v = IV(32, s=r)
    v._b = z3.simplify(b)
    v.__class__ = CTV
    return v


class CTV(IV):
    __slots__ = ()


@model(r'^(toupper|tolower)$')
def _(E, st, a, i):
    c = zi(a[0].s)
    if i.dem == 'toupper':
        return IV(32, s=simp(z3.If(z3.And(c >= 97, c <= 122), c - 32, c)))
    return IV(32, s=simp(z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))


# ---------------------------------------------------------------- intrinsics and libm
def fp(i):
    return FLOATS[i.retty.a] if i.retty.k == 'fp' else 8


UF1 = {}


def uf(name, n=1):
    if (name, n) not in UF1:
        UF1[(name, n)] = z3.Function(name, *([R] * n), R)
    return UF1[(name, n)]


def app1(E, st, name, x):
    x = z3.simplify(x, som=True) if False else z3.simplify(x)
    r = uf(name)(x)
    if name == 'sqrt':
        st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    elif name in ('sin', 'cos'):
        s, c = uf('sin')(x), uf('cos')(x)
        st.assume(z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
    elif name == 'exp':
        st.assume(r > 0)
    return r


FN1 = {'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'log2', 'log10', 'atan', 'asin', 'acos', 'exp2', 'cbrt'}


@model(r'^llvm\.(fabs|sqrt|sin|cos|exp|exp2|log|log2|log10|floor|ceil|round|trunc|rint|nearbyint)\.f|^(fabs|sqrt|sin|cos|tan|exp|log|log2|log10|atan|asin|acos|floor|ceil|round|trunc|cbrt)f?l?$|^std::(fabs|abs|sqrt|sin|cos|tan|exp|log|log2|log10|atan|asin|acos|floor|ceil|round|trunc|cbrt)\((float|double)\)$')
def _(E, st, a, i):
    m = re.match(r'^(?:llvm\.|std::)?([a-z]+\d*?)(?:\.f\d+|\((?:float|double)\)|)$', i.dem)
    n = m.group(1)
    if n not in FN1 and n.endswith(('f', 'l')) and n[:-1] in FN1 | {'fabs', 'floor', 'ceil', 'round', 'trunc'}:
        n = n[:-1]
    x = a[0].r
    sz = a[0].sz
    if n in ('fabs', 'abs'):
        return FV(z3.simplify(z3.If(x >= 0, x, -x)), sz)
    if n == 'floor':
        return FV(z3.simplify(z3.ToReal(z3.ToInt(x))), sz)
    if n == 'ceil':
        return FV(z3.simplify(-z3.ToReal(z3.ToInt(-x))), sz)
    if n == 'trunc':
        return FV(z3.simplify(z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))), sz)
    if n in ('round', 'rint', 'nearbyint'):
        h = z3.RealVal('1/2')
        return FV(z3.simplify(z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))), sz)
    E.assumptions.add('transcendental functions are uninterpreted (sqrt, sin/cos with their algebraic axioms)')
    return FV(app1(E, st, n, x), sz)


@model(r'^cabsf?$')
def _(E, st, a, i):
    if len(a) == 1:
        re_, im = a[0].vals
    else:
        re_, im = a[0], a[1]
    E.assumptions.add('transcendental functions are uninterpreted (sqrt, sin/cos with their algebraic axioms)')
    return FV(app1(E, st, 'sqrt', re_.r * re_.r + im.r * im.r), re_.sz)


@model(r'^lroundf?$|^std::lround\(|^lrintf?$|^std::lrint\(')
def _(E, st, a, i):
    x = a[0].r
    h = z3.RealVal('1/2')
    return IV(64, s=simp(z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h))))


@model(r'^llvm\.fmuladd\.|^llvm\.fma\.')
def _(E, st, a, i):
    return FV(z3.simplify(a[0].r * a[1].r + a[2].r), a[0].sz)


@model(r'^(fmodf?|std::fmod\(.*\)|atan2f?|std::atan2\(.*\)|powf?|std::pow\((float|double), (float|double)\)|hypotf?|llvm\.pow\..*)$')
def _(E, st, a, i):
    n = re.match(r'^(?:std::|llvm\.)?(fmod|atan2|pow|hypot)', i.dem).group(1)
    if n == 'fmod':
        x, y = a[0].r, a[1].r
        q = fresh_int('fq')
        r = FMOD(x, y)
        st.assume(z3.Implies(y != 0, z3.And(r == x - z3.ToReal(q) * y, z3.If(y > 0, z3.And(r < y, r > -y), z3.And(r < -y, r > y)),
                                            z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0))))
        return FV(r, a[0].sz)
    return FV(uf(n, 2)(a[0].r, a[1].r), a[0].sz)


@model(r'^llvm\.(umax|umin|smax|smin)\.')
def _(E, st, a, i):
    k = i.dem.split('.')[1]
    if k[0] == 'u':
        x, y = zi(a[0].u), zi(a[1].u)
        return IV(a[0].w, u=simp(z3.If((x > y) if k == 'umax' else (x < y), x, y)))
    x, y = zi(a[0].s), zi(a[1].s)
    return IV(a[0].w, s=simp(z3.If((x > y) if k == 'smax' else (x < y), x, y)))


@model(r'^llvm\.abs\.|^abs$|^labs$|^std::abs\((int|long)\)$')
def _(E, st, a, i):
    x = zi(a[0].s)
    return IV(a[0].w, s=simp(z3.If(x >= 0, x, -x)))


@model(r'^llvm\.expect')
def _(E, st, a, i):
    return a[0]


@model(r'^llvm\.(maxnum|minnum)\.|^fmaxf?$|^fminf?$')
def _(E, st, a, i):
    x, y = a[0].r, a[1].r
    return FV(z3.If((x >= y) if 'max' in i.dem else (x <= y), x, y), a[0].sz)


@model(r'^llvm\.bswap\.')
def _(E, st, a, i):
    w = a[0].w
    b = a[0].bv
    return IV(w, bv=z3.simplify(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, b) for k in range(w // 8)])))


@model(r'^llvm\.ctpop\.')
def _(E, st, a, i):
    b = a[0].bv
    w = a[0].w
    return IV(w, bv=z3.simplify(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(k, k, b)) for k in range(w)])))


@model(r'^llvm\.is\.fpclass')
def _(E, st, a, i):
    mask = a[1].const()
    if mask == 3:
        return boolv(E.isnan(a[0].r))
    if mask in (504,):
        E.assumptions.add('floating-point values are finite reals')
        return IV.c(1, 1)
    if mask == 516:
        return IV.c(1, 0)
    raise Unsupported('fpclass %r' % mask)


@model(r'^(bool )?std::(isnan|isfinite|isinf)(<.*>)?\(')
def _(E, st, a, i):
    if 'isnan' in i.dem:
        return boolv(E.isnan(a[0].r))
    E.assumptions.add('floating-point values are finite reals')
    return IV.c(1, 1 if 'isfinite' in i.dem else 0)


# complex arithmetic helpers of the compiler runtime
@model(r'^__(mul)(dc|sc)3$')
def _(E, st, a, i):
    x, y, z, w = [v.r for v in a]
    sz = a[0].sz
    return Agg([FV(z3.simplify(x * z - y * w), sz), FV(z3.simplify(x * w + y * z), sz)])


@model(r'^__(div)(dc|sc)3$')
def _(E, st, a, i):
    x, y, z, w = [v.r for v in a]
    sz = a[0].sz
    d = z * z + w * w
    return Agg([FV((x * z + y * w) / d, sz), FV((y * z - x * w) / d, sz)])


# errors thrown by the library
@model(r'^std::__throw_')
def _(E, st, a, i):
    t = re.match(r'^std::__throw_(\w+?)(_fmt)?\(', i.dem).group(1)
    return [('throw', st, t)]


@model(r'^__cxa_guard_acquire$')
def _(E, st, a, i):
    return IV.c(32, 1)


@model(r'^__cxa_guard_(release|abort)$|^__cxa_atexit$')
def _(E, st, a, i):
    return IV.c(32, 0)


@model(r'^__errno_location$')
def _(E, st, a, i):
    rid = '@errno'
    if rid not in st.mem:
        from engine import Obj
        x = fresh_int('errno')
        st.assume(z3.And(x >= 0, x < 4096))
        st.mem[rid] = Obj('errno', {0: IV(32, s=x)}, 4, 'mem')
        E.global_objs.setdefault(rid, st.mem[rid])
    return Ptr(rid)


def register(E):
    E.models = [(_Canon(rx), f) for rx, f in MODELS] + E.models


class _Canon:
    def __init__(self, rx):
        self.rx = rx
        self.pattern = rx.pattern

    def search(self, dem):
        return self.rx.search(canon(dem))


# ---------------------------------------------------------------- boost string algorithms, "C" locale
@model(r'^std::locale::(locale|~locale)\((std::locale const&)?\)$')
def _(E, st, a, i):
    E.assumptions.add('the process runs in the "C" locale (ctype classification and case conversion)')
    return None


def lower_arr(arr):
    return lam(lambda k: z3.If(z3.And(z3.Select(arr, k) >= 65, z3.Select(arr, k) <= 90), z3.Select(arr, k) + 32, z3.Select(arr, k)))


def upper_arr(arr):
    return lam(lambda k: z3.If(z3.And(z3.Select(arr, k) >= 97, z3.Select(arr, k) <= 122), z3.Select(arr, k) - 32, z3.Select(arr, k)))


@model(r'^std::string boost::algorithm::to_(lower|upper)_copy<std::string>\(std::string const&, std::locale const&\)$')
def _(E, st, a, i):
    l, arr = strarg(E, st, a[1])
    E.set_container(st, a[0], mkstr(l, lower_arr(arr) if 'to_lower' in i.dem else upper_arr(arr)))


@model(r'^void boost::algorithm::to_(lower|upper)<std::string>\(std::string&, std::locale const&\)$')
def _(E, st, a, i):
    l, arr = strarg(E, st, a[0])
    E.set_container(st, a[0], mkstr(l, lower_arr(arr) if 'to_lower' in i.dem else upper_arr(arr)))
