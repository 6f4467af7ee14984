"""Field requirements of step chains: common/Fields.h."""
from unit import Target
from specs import *

UNITS = {'fields': 'fields.cc'}
NATIVE = 'P02.cc'
SEARCH_SECS = 4
BOUND = 'all 16^3 combinations of current/required/provided, all printed forms, random chains of up to 12 steps'
ASSUMPTIONS = ['operator<< is decided by the (exhaustive, 16 values) runtime contract, not by proof',
               'class invariant of Fields: no bits beyond the declared fields (preserved by every operation: proved)']
F = ['data', 'flags', 'weights', 'uvw']
W = SInt(64, 'bv')


def pre(objs, outs):
    def f(c):
        r = []
        for n in objs:
            r.append(c.obj(n, W))
            c.assume(z3.ULT(c.p[n].t, 16))
        return r + [c.out(n) for n in outs]
    return f


def ob(o, n, i):
    v = o.cell(n, i)
    return v.b if v.w == 1 else v.bv != 0


def fieldwise(name, spec, keep=()):
    def post(c, o):
        if o.threw:
            return [('never throws', False)]
        g = lambda n, i: ob(o, n, i)
        r = [('%s: %s' % (name, F[i]), g('o', i) == spec(lambda n: g(n, i), i)) for i in range(4)]
        for a, b in keep:
            r += [('operand unchanged', g(a, i) == g(b, i)) for i in range(4)]
        return r
    return post


def inv(n, f):
    def post(c, o):
        r = f(c, o)
        v = o.cell(n)
        return r + [('class invariant', z3.ULT(v.bv, 16))]
    return post


def eq(want):
    def post(c, o):
        if o.threw:
            return [('never throws', False)]
        same = z3.And(*[ob(o, 'x', i) == ob(o, 'y', i) for i in range(4)])
        r = o.val.b if o.val.w == 1 else o.val.bv != 0
        return [('decided by the four fields', r == (same if want else z3.Not(same)))]
    return post


def case(t, *ns):
    return lambda c, m: t + ''.join(' %d' % m.m.eval(c.p[n].t, model_completion=True).as_long() for n in ns)


def targets(thorough):
    T = [Target('default constructor', 'drv_empty', pre([], ['o']), fieldwise('nothing set', lambda g, i: z3.BoolVal(False)))]
    for k in range(4):
        T.append(Target('Fields(%s)' % F[k], 'drv_single', lambda c, k=k: [IV(32, u=k), c.out('o')], fieldwise('single', lambda g, i, k=k: z3.BoolVal(i == k))))
    T.append(Target('operator|', 'drv_or', pre('ab', ['x', 'y', 'o', 'o1', 'o2']), fieldwise('union', lambda g, i: z3.Or(g('x'), g('y')), [('x', 'o1'), ('y', 'o2')]), case=case('or', 'a', 'b')))
    T.append(Target('operator|=', 'drv_ior', pre('ab', ['x', 'y', 'o', 'o2']), inv('a', fieldwise('union', lambda g, i: z3.Or(g('x'), g('y')), [('y', 'o2')])), case=case('or', 'a', 'b')))
    T.append(Target('operator==', 'drv_eq', pre('ab', 'xy'), eq(True), case=case('or', 'a', 'b')))
    T.append(Target('operator!=', 'drv_ne', pre('ab', 'xy'), eq(False), case=case('or', 'a', 'b')))
    T.append(Target('UpdateRequirements', 'drv_update', pre('arp', 'xyzo'), inv('a', fieldwise('required, or needed later and not created here', lambda g, i: z3.Or(g('y'), z3.And(g('x'), z3.Not(g('z')))))),
                    case=case('update', 'a', 'r', 'p'), about='x := r or (x and not p), per field'))
    T.append(Target('two-step chain', 'drv_chain2', pre(['r1', 'p1', 'r2', 'p2'], 'xyzwo'), fieldwise('read before being created', lambda g, i: z3.Or(g('x'), z3.And(g('z'), z3.Not(g('y'))))),
                    about='a field is required of the input iff a step reads it before any step creates it'))
    return [('fields', t) for t in T]
