"""Name tables: calibration modes, RCU modes, least-squares solver names."""
from unit import Target
from specs import *

UNITS = {'tables': 'tables.cc'}
NATIVE = 'P14.cc'
NATIVE_FLAGS = ['-llapack', '-lblas']
SEARCH_SECS = 4
BOUND = 'every mode number in -1000..1000 and extremes; all accepted names with every one-character edit, and random names'
ASSUMPTIONS = []
CT = ['scalar', 'scalaramplitude', 'scalarphase', 'diagonal', 'diagonalamplitude', 'diagonalphase', 'fulljones', 'tec', 'tec+delay', 'tec+phase',
      'tec+phase+delay', 'tecscreen', 'rotation+diagonal', 'rotation', 'faradayrotation', 'leakage', 'leakageamplitude']
ALIAS = {'complexgain': 'diagonal', 'phaseonly': 'diagonalphase', 'amplitudeonly': 'diagonalamplitude', 'scalarcomplexgain': 'scalar',
         'scalarcomplex': 'scalar', 'tecandphase': 'tec+phase'}
NAMES = {n: i for i, n in enumerate(CT)}
NAMES.update({a: CT.index(t) for a, t in ALIAS.items()})
NPOL = [1, 1, 1, 2, 2, 2, 4, 1, 1, 1, 1, 1, 4, 4, 4, 4, 4]
RCU = ['unused', 'LBA_OUTER 10-90 MHz', 'LBA_OUTER 30-90 MHz', 'LBA_INNER 10-90 MHz', 'LBA_INNER 30-90 MHz', 'HBA 110-190 MHz', 'HBA 170-230 MHz', 'HBA 210-270 MHz']


def streq(n, text):
    return z3.And(zi(n.len) == len(text), *[z3.Select(n.el.t, i) == ord(ch) for i, ch in enumerate(text)])


def pre_str(c):
    return [c.obj('s', STR, maxlen=1 << 20)]


def in_class(c, k):
    return z3.Or(*[streq(c.p['s'], n) for n, v in sorted(NAMES.items()) if v == k])


def post_caltype(c, o):
    anyname = z3.Or(*[streq(c.p['s'], n) for n in sorted(NAMES)])
    if o.threw:
        return [('only unknown names are rejected', z3.Not(anyname))]
    r = zi(o.val.u)
    return [('a name denotes one documented mode', z3.Or(*[z3.And(r == k, in_class(c, k)) for k in range(len(CT))]))]


def num(lo, hi):
    def f(c):
        a = c.s('k', 32)
        c.assume(z3.And(c.p['k'] >= lo, c.p['k'] <= hi))
        return [a]
    return f


def post_rt(c, o):
    if o.threw:
        return [('the printed name of every mode is accepted', False)]
    return [('the printed name of a mode denotes that mode', zi(o.val.s) == c.p['k'])]


def table(vals):
    def post(c, o):
        if o.threw:
            return [('never throws', False)]
        r = zi(o.val.u)
        return [('documented value', z3.And(*[z3.Implies(c.p['k'] == i, r == v) for i, v in enumerate(vals)]))]
    return post


def post_from(c, o):
    ok = z3.And(c.p['k'] >= 0, c.p['k'] <= 7)
    if o.threw:
        return [('only numbers outside 0..7 are rejected', z3.Not(ok))]
    return [('mode number is kept', z3.And(ok, zi(o.val.s) == c.p['k']))]


def rtable(vals):
    """vals: per mode number a string / float / None (throws)"""
    def post(c, o):
        k = c.p['k']
        inside = z3.And(k >= 0, k <= 7)
        if o.threw:
            return [('rejects only what is undefined', z3.And(*[k != i for i, v in enumerate(vals) if v is not None]))]
        if isinstance(vals[-1], str):
            n = o.cell('out')
            return [('documented value', z3.And(inside, *[z3.Implies(k == i, streq(n, v)) for i, v in enumerate(vals)]))]
        return [('documented value', z3.And(inside, *[z3.Implies(k == i, o.val.r == v if v is not None else z3.BoolVal(False)) for i, v in enumerate(vals)]))]
    return post


def pre_out(c):
    a = c.obj('out', STR, maxlen=1 << 20)
    return [a, c.s('k', 32)]


def lower(n, text):
    up = [z3.Or(z3.Select(n.el.t, i) == ord(ch), z3.Select(n.el.t, i) == ord(ch.upper())) for i, ch in enumerate(text)]
    return z3.And(zi(n.len) == len(text), *up)


LLS = ['svd', 'qr', 'normalequations']


def post_lls(vals):
    def post(c, o):
        s = c.p['s']
        if o.threw:
            return [('only unknown solver names are rejected', z3.Not(z3.Or(*[lower(s, t) for t in LLS])))]
        return [('case-insensitive solver name', z3.Or(*[z3.And(zi(o.val.u) == vals[t], lower(s, t)) for t in LLS]))]
    return post


def case(t, *names):
    def f(c, m):
        return t + ''.join(' ' + (qc(m.s(c.p[n])) if isinstance(c.p[n], VecN) else str(m.i(c.p[n]))) for n in names)
    return f


def targets(thorough):
    T = []
    T.append(Target('StringToCalType', 'drv_caltype', pre_str, post_caltype, case=case('caltype', 's'), timeout=30000,
                    covers=[('accepts', lambda c, o: not o.threw), ('rejects', lambda c, o: o.threw)]))
    T.append(Target('CalType round trip', 'drv_caltype_rt', num(0, 16), post_rt, case=case('caltype_rt', 'k')))
    T.append(Target('GetNPolarizations', 'drv_npol', num(0, 16), table(NPOL), case=case('npol', 'k')))
    T.append(Target('RcuMode::FromNumber', 'drv_rcu_from', lambda c: [c.s('k', 32)], post_from, case=case('rcu', 'k')))
    T.append(Target('RcuMode::ToString', 'drv_rcu_name', pre_out, rtable(RCU), case=case('rcu', 'k')))
    T.append(Target('RcuMode::AntennaType', 'drv_rcu_type', pre_out, rtable(['?'] + ['LBA'] * 4 + ['HBA'] * 3), case=case('rcu', 'k')))
    T.append(Target('RcuMode::Bandwidth', 'drv_rcu_bw', lambda c: [c.s('k', 32)], rtable([None] + [195312.5] * 5 + [156250.0, 195312.5]), case=case('rcu', 'k')))
    T.append(Target('RcuMode::CentralFrequency', 'drv_rcu_freq', lambda c: [c.s('k', 32)], rtable([None, 50.0, 60.0, 50.0, 60.0, 150.0, 200.0, 240.0]), case=case('rcu', 'k')))
    T.append(Target('RcuMode::FrequencyOffset', 'drv_rcu_off', lambda c: [c.s('k', 32)], rtable([None, 0.0, 0.0, 0.0, 0.0, 100e6, 160e6, 200e6]), case=case('rcu', 'k')))
    T.append(Target('LLSSolver::ParseType', 'drv_lls', pre_str, post_lls(dict(svd=0, qr=1, normalequations=2)), case=case('lls', 's')))
    return [('tables', t) for t in T]
