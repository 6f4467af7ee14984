"""Upsampling of solutions with direction-dependent intervals: ddecal/SolutionResampler.cc."""
from unit import Target
from specs import *
from stdmodels import shape_of

UNITS = {'resample': 'resample.cc'}
NATIVE = 'P03.cc'
SEARCH_SECS = 8
BOUND = 'up to 5 directions, 4 antennas, 4 polarizations, 4 intervals, 3 channel blocks, 5 result axes; interval lengths up to 60 (all divisors) and up to 2^23 for the number of substeps'
ASSUMPTIONS = ['precondition (documented): every number of solutions per direction is a positive divisor of the solution interval',
               'all prefix sums of the number of solutions stay below 2^32 (the code accumulates in unsigned int)',
               'both Upsample functions are decided by bounded runtime contracts; the index mapping they use is proved']
PSum = SpecFn('PSum', [A, I], I, lambda a, k: z3.If(k <= 0, z3.IntVal(0), PSum(a, k - 1) + sel(a, k - 1)))
L = lambda k, n: z3.And(k >= 0, k < n)


def common(c, dims=False):
    v = c.obj('n', shape_of(c.E, 'std::vector<unsigned long>'), maxlen=1 << 20)
    na, iv = c.u('n_ant', 64), c.u('interval', 64)
    n, a = c.p['n'].len, c.p['n'].el.t
    k = z3.Int('k!p')
    c.assume(z3.And(n >= 1, c.p['interval'] >= 1, c.p['n_ant'] < 1 << 20, c.p['interval'] < 1 << 32))
    c.assume(z3.ForAll([k], z3.Implies(L(k, n), z3.And(sel(a, k) >= 1, sel(a, k) <= c.p['interval'], c.p['interval'] % sel(a, k) == 0)), patterns=[sel(a, k)]))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n), z3.And(PSum(a, k) >= 0, PSum(a, k) < 1 << 32)), patterns=[PSum(a, k)]))
    return [v, na, iv]


def post_steps(c, o):
    if o.threw:
        return [('never throws', False)]
    n, a, r = c.p['n'].len, c.p['n'].el.t, zi(o.val.u)
    k, j = z3.Int('k!p'), z3.Int('j!p')
    ismax = z3.And(z3.Exists([k], z3.And(L(k, n), sel(a, k) == r)), z3.ForAll([k], z3.Implies(L(k, n), sel(a, k) <= r)))
    return [('a common multiple of all numbers of solutions', z3.ForAll([k], z3.Implies(L(k, n), r % sel(a, k) == 0))),
            ('the largest number of solutions, or the solution interval', z3.Or(r == c.p['interval'], ismax)),
            ('positive', r >= 1)]


def pre_map(c):
    r = common(c)
    r = [c.out('t'), c.out('o'), c.out('ns')] + r + [c.u('time', 64), c.u('ant', 64), c.u('dir', 64), c.u('pol', 64), c.u('n_pol', 64)]
    p, n = c.p, c.p['n'].len
    c.assume(z3.And(p['ant'] < p['n_ant'], p['dir'] < n, p['pol'] < p['n_pol'], p['n_pol'] <= 4))
    return r


def post_map(c, o):
    if o.threw:
        return [('never throws', False)]
    p = c.p
    n, a = p['n'].len, p['n'].el.t
    t, of, ns = (zi(o.cell(x).u) for x in ('t', 'o', 'ns'))
    tot, d = PSum(a, n), p['dir']
    step = p['time'] % ns
    sub = step / (ns / sel(a, d))
    return [('the solution interval that holds the time step', t == p['time'] / ns),
            ('the sub-solution of this antenna, direction and polarization that is valid then', of == (p['ant'] * tot + PSum(a, d) + sub) * p['n_pol'] + p['pol'])]


def t_loops(lc, c):
    a, n = c.p['n'].el.t, c.p['n'].len
    out = []
    k = z3.Int('k!t')
    names = [x for x in lc.lv if lc.lv[x].kind in ('int', 'ptr', 'cell')]
    for x in names:
        for y in names:
            if x != y:
                out.append(('T:max(%s,%s)' % (x, y), lambda v, x=x, y=y: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= zi(v.v(x))), sel(a, k) <= sel(a, zi(v.v(y)))))))
                out.append(('T:sum(%s,%s)' % (x, y), lambda v, x=x, y=y: zi(v.v(y)) == PSum(a, zi(v.v(x)))))
        for g, val in lc.entry.regs.items():
            if isinstance(val, IV) and val.w == 64 and not z3.is_int_value(zi(val.u)):
                out.append(('T:div(%s,%s)' % (x, g), lambda v, x=x, m=zi(val.u): z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.v(x))), m % sel(a, k) == 0), patterns=[sel(a, k)])))
    return out


def targets(thorough):
    enc = lambda c, m: ','.join(str(m.i(sel(c.p['n'].el.t, k))) for k in range(min(m.i(c.p['n'].len), 1000)))
    ts = [Target('GetNrSubSteps', 'drv_substeps', common, post_steps, templates=[t_loops], timeout=30000,
                 case=lambda c, m: 'substeps %s %d' % (enc(c, m), m.i(c.p['interval'])), about='constructor: common multiple of all intervals')]
    ts.append(Target('MapResampledToOriginal', 'drv_map', pre_map, post_map, templates=[t_loops], timeout=30000,
                     case=lambda c, m: 'map %s %s' % (enc(c, m), ' '.join(str(m.i(c.p[x])) for x in ('n_ant', 'interval', 'time', 'ant', 'dir', 'pol', 'n_pol'))),
                     about='solution of the interval, antenna, direction and polarization asked for'))
    return [('resample', t) for t in ts]
