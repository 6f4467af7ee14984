"""Symbolic values and the tree-shaped memory of the irv verifier.

Integers are mathematical (z3 Int) with an explicit representation
('u' unsigned representative, 's' signed representative, 'bv' bit-vector);
machine wrap-around is modelled exactly (a wrap is folded away only when the
solver or interval arithmetic proves that it cannot happen).
Floating point values are z3 Reals (machine arithmetic treated as
mathematical; listed as an assumption by every unit that uses it).

Memory is a set of root objects.  A root object maps concrete byte offsets to
nodes; a node is a scalar, a pointer, or a container whose elements live in
z3 arrays ("structure of arrays"), so nested std::vector/std::string values
are trees and never alias.
"""
import itertools
import z3
from irparse import Unsupported

_ctr = itertools.count()


def fresh_int(name):
    return z3.Int('%s!%d' % (name, next(_ctr)))


def fresh_real(name):
    return z3.Real('%s!%d' % (name, next(_ctr)))


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


def isconst(e):
    return isinstance(e, int) or z3.is_int_value(e)


def const(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return None


def zi(e):
    return z3.IntVal(e) if isinstance(e, int) else e


def simp(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


# ------------------------------------------------------------ scalars
class IV:
    """integer of width w; u / s are z3 Int expressions or python ints, bv a
    z3 bit-vector, b a z3 Bool (only for w == 1)."""
    __slots__ = ('w', '_u', '_s', '_bv', '_b')

    def __init__(self, w, u=None, s=None, bv=None, b=None):
        self.w, self._u, self._s, self._bv, self._b = w, u, s, bv, b

    @staticmethod
    def c(w, v):
        v &= (1 << w) - 1
        s = v - (1 << w) if v >> (w - 1) else v
        r = IV(w, u=v, s=s)
        if w == 1:
            r._b = z3.BoolVal(bool(v))
        return r

    def const(self):
        if isinstance(self._u, int):
            return self._u
        if isinstance(self._s, int):
            return self._s & ((1 << self.w) - 1)
        return None

    @property
    def has_u(self):
        return self._u is not None

    @property
    def has_s(self):
        return self._s is not None

    @property
    def u(self):
        if self._u is None:
            if self._b is not None:
                self._u = simp(z3.If(self._b, 1, 0))
            elif self._s is not None:
                s = self._s
                self._u = simp(z3.If(s < 0, s + (1 << self.w), s)) if not isinstance(s, int) else s & ((1 << self.w) - 1)
            else:
                self._u = simp(z3.BV2Int(self._bv, False))
        return self._u

    @property
    def s(self):
        if self._s is None:
            if self._u is not None or self._b is not None:
                u = self.u
                if isinstance(u, int):
                    self._s = u - (1 << self.w) if u >> (self.w - 1) else u
                else:
                    self._s = simp(z3.If(u >= (1 << (self.w - 1)), u - (1 << self.w), u))
            else:
                self._s = simp(z3.BV2Int(self._bv, True))
        return self._s

    @property
    def bv(self):
        if self._bv is None:
            if self._b is not None:
                self._bv = z3.If(self._b, z3.BitVecVal(1, self.w), z3.BitVecVal(0, self.w))
            else:
                u = self._u if self._u is not None else self._s
                self._bv = z3.BitVecVal(u, self.w) if isinstance(u, int) else z3.Int2BV(u, self.w)
        return self._bv

    @property
    def has_bv(self):
        return self._bv is not None

    @property
    def b(self):
        """truth value (w == 1, or non-zero)"""
        if self._b is None:
            if self._u is not None:
                self._b = z3.BoolVal(self._u != 0) if isinstance(self._u, int) else z3.simplify(self._u != 0)
            elif self._s is not None:
                self._b = z3.BoolVal(self._s != 0) if isinstance(self._s, int) else z3.simplify(self._s != 0)
            else:
                self._b = z3.simplify(self._bv != 0)
        return self._b

    def __repr__(self):
        return 'i%d(%s)' % (self.w, self._u if self._u is not None else self._s if self._s is not None
                            else self._bv if self._bv is not None else self._b)


class FV:
    __slots__ = ('r', 'sz')

    def __init__(self, r, sz=8):
        self.r, self.sz = r, sz

    def __repr__(self):
        return 'F(%s)' % self.r


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    """root: object id (None = null); path: tuple (off0, idx1, off1, ...);
    offs are python ints, idx z3 Ints / python ints."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=(0,)):
        self.root, self.path = root, path

    def __repr__(self):
        return 'P(%s,%s)' % (self.root, ','.join(map(str, self.path)))


NULL = Ptr(None, (0,))


class FnPtr:
    def __init__(self, name):
        self.name = name


class PtrInt:
    """ptrtoint result"""

    def __init__(self, p):
        self.p = p


class Agg:
    def __init__(self, vals):
        self.vals = list(vals)

    def __repr__(self):
        return 'Agg%r' % self.vals


# ------------------------------------------------------------ shapes
class SInt:
    def __init__(self, w, rep='u'):
        self.w, self.rep = w, rep
        self.size = max(1, w // 8)

    def sort(self):
        return z3.BitVecSort(self.w) if self.rep == 'bv' else z3.IntSort()

    def __repr__(self):
        return 'i%d%s' % (self.w, self.rep)


class SFp:
    def __init__(self, size=8):
        self.size = size

    def sort(self):
        return z3.RealSort()

    def __repr__(self):
        return 'f%d' % self.size


class SStruct:
    def __init__(self, fields, size):
        self.fields, self.size = fields, size  # {off: shape}

    def __repr__(self):
        return 'struct%r' % self.fields


class SVec:
    def __init__(self, elem, size=24):
        self.elem, self.size = elem, size

    def __repr__(self):
        return 'vec(%r)' % self.elem


class SStr(SVec):
    def __init__(self):
        SVec.__init__(self, SInt(8, 's'), 32)

    def __repr__(self):
        return 'str'


class SPtr:
    size = 8

    def __repr__(self):
        return 'ptr'


class SUnk:
    """scalar memory whose type is decided by its first use"""
    size = 8


class SMap:
    """opaque object"""

    def __init__(self, size=8):
        self.size = size


SZT = SInt(64)
COMPLEXD = SStruct({0: SFp(8), 8: SFp(8)}, 16)
COMPLEXF = SStruct({0: SFp(4), 4: SFp(4)}, 8)
STR = SStr()


# ------------------------------------------------------------ nodes
# A node lives under k index dimensions: its z3 terms are k-fold arrays.
class Leaf:
    __slots__ = ('shape', 't')

    def __init__(self, shape, t):
        self.shape, self.t = shape, t


class VecN:
    """container; len: z3 term (k-fold array of Int); el: node at k+1 dims"""
    __slots__ = ('shape', 'len', 'el')

    def __init__(self, shape, ln, el):
        self.shape, self.len, self.el = shape, ln, el


class StructN:
    __slots__ = ('shape', 'f')

    def __init__(self, shape, f):
        self.shape, self.f = shape, f


def arr_sort(s, k):
    for _ in range(k):
        s = z3.ArraySort(z3.IntSort(), s)
    return s


def mk_node(shape, k, name):
    """fresh symbolic node"""
    if isinstance(shape, (SInt, SFp)):
        return Leaf(shape, fresh(name, arr_sort(shape.sort(), k)))
    if isinstance(shape, SVec):
        return VecN(shape, fresh(name + '.len', arr_sort(z3.IntSort(), k)), mk_node(shape.elem, k + 1, name))
    if isinstance(shape, SStruct):
        return StructN(shape, {o: mk_node(s, k, '%s.%d' % (name, o)) for o, s in shape.fields.items()})
    raise Unsupported('mk_node %r' % shape)


def map_node(f, n):
    if isinstance(n, Leaf):
        return Leaf(n.shape, f(n.t))
    if isinstance(n, VecN):
        return VecN(n.shape, f(n.len), map_node(f, n.el))
    return StructN(n.shape, {o: map_node(f, x) for o, x in n.f.items()})


def zip_node(f, a, b):
    if isinstance(a, Leaf):
        if not isinstance(b, Leaf):
            raise Unsupported('node shape mismatch')
        return Leaf(a.shape, f(a.t, b.t))
    if isinstance(a, VecN):
        if not isinstance(b, VecN):
            raise Unsupported('node shape mismatch')
        return VecN(a.shape, f(a.len, b.len), zip_node(f, a.el, b.el))
    if set(a.f) != set(b.f):
        raise Unsupported('node shape mismatch')
    return StructN(a.shape, {o: zip_node(f, a.f[o], b.f[o]) for o in a.f})


def zsel(t, i):
    t0 = t
    # read over write with syntactically equal / distinct constant index
    while z3.is_store(t):
        j = t.arg(1)
        if z3.eq(j, zi(i)):
            return t.arg(2)
        a, b = const(simp(j)), const(simp(i))
        if a is not None and b is not None and a != b:
            t = t.arg(0)
            continue
        break
    if z3.is_const_array(t):
        return t.arg(0)
    return z3.Select(t, zi(i))


def n_sel(n, i):
    return map_node(lambda t: zsel(t, i), n)


def n_store(n, i, v):
    return zip_node(lambda a, b: z3.Store(a, zi(i), zi(b) if not isinstance(b, z3.ExprRef) else b), n, v)


def n_terms(n, out=None):
    if out is None:
        out = []
    if isinstance(n, Leaf):
        out.append(n.t)
    elif isinstance(n, VecN):
        out.append(n.len)
        n_terms(n.el, out)
    elif isinstance(n, StructN):
        for o in sorted(n.f):
            n_terms(n.f[o], out)
    return out


def n_ite(c, a, b):
    return zip_node(lambda x, y: z3.If(c, zi(x), zi(y)), a, b)


def const_node(shape, k, ints=0):
    """all-zero node (elements of value-initialised containers)"""
    def K(t):
        for _ in range(k):
            t = z3.K(z3.IntSort(), t)
        return t
    if isinstance(shape, SInt):
        return Leaf(shape, K(z3.BitVecVal(0, shape.w) if shape.rep == 'bv' else z3.IntVal(0)))
    if isinstance(shape, SFp):
        return Leaf(shape, K(z3.RealVal(0)))
    if isinstance(shape, SVec):
        return VecN(shape, K(z3.IntVal(0)), const_node(shape.elem, k + 1))
    if isinstance(shape, SStruct):
        return StructN(shape, {o: const_node(s, k) for o, s in shape.fields.items()})
    raise Unsupported('const_node %r' % shape)


def leaf_value(n):
    """Leaf at dimension 0 -> scalar value"""
    s = n.shape
    if isinstance(s, SFp):
        return FV(n.t, s.size)
    if s.rep == 'u':
        return IV(s.w, u=simp(n.t))
    if s.rep == 's':
        return IV(s.w, s=simp(n.t))
    return IV(s.w, bv=n.t)


def value_leaf(shape, v):
    if isinstance(shape, SFp):
        if not isinstance(v, FV):
            raise Unsupported('store non-float into float memory')
        return Leaf(shape, v.r)
    if not isinstance(v, IV):
        raise Unsupported('store non-int into int memory: %r' % v)
    if shape.w != v.w:
        if shape.w == 8 and v.w == 1:
            return Leaf(shape, zi(v.u))
        raise Unsupported('store width mismatch %d vs %d' % (v.w, shape.w))
    return Leaf(shape, zi(v.u) if shape.rep == 'u' else zi(v.s) if shape.rep == 's' else v.bv)


class ExcVal:
    """the exception in flight, as seen by a cleanup"""

    def __init__(self, ty):
        self.ty = ty

    @property
    def vals(self):
        return [self, self]
