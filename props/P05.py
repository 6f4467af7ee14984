"""Subtracting the weighted model: base/SubtractMixed.cc with base/Cursor.h."""
from unit import Target
from specs import *
from props.P04 import BL, CD, MAX, cmul, at, stride_lemmas

UNITS = {'apply': 'apply.cc'}
NATIVE = 'P05.cc'
SEARCH_SECS = 6
BOUND = 'random shapes up to 60 baselines x 50 channels x 100 stations with random strides and NaNs; the reported powers are checked only here'
ASSUMPTIONS = ['float and double arithmetic treated as real arithmetic',
               'buffers contiguous as (baseline, channel, 4); other strides, the reported powers and NaN samples are covered by the bounded runtime contracts only']
CF = SStruct({0: SFp(4), 4: SFp(4)}, 8)


def pre(c):
    nb, nc = c.u('nbl', 64), c.u('nch', 64)
    NB, NC = c.p['nbl'], c.p['nch']
    c.assume(z3.And(NB <= MAX, NC <= 1 << 20))
    bl = c.arr('bl', BL, NB)
    da = c.arr('data', CF, z3.Int('ndata'))
    mo = c.arr('model', CD, z3.Int('ndata'))
    we = c.arr('weight', CD, z3.Int('ndata'))
    S = 4 * NC
    c.assume(c.p['data'].len == NB * S)
    B, C = z3.Int('B'), z3.Int('C')
    c.p['B'], c.p['C'] = B, C
    c.assume(z3.And(B >= 0, B < NB, C >= 0, C < NC))
    c.p['S'] = S
    c.p['A'] = B * S + 4 * C
    return [nb, nc, bl, da, mo, we, c.out('before'), c.out('after')]


def expected(c):
    bl = c.p['bl'].el
    same = z3.Select(bl.f[0].t, c.p['B']) == z3.Select(bl.f[8].t, c.p['B'])
    d, m, w = (c.p[x].el for x in ('data', 'model', 'weight'))
    V, W = [], []
    for k in range(4):
        v = at(c, (d.f[0].t, d.f[4].t), k)
        p = cmul(at(c, (w.f[0].t, w.f[8].t), k), at(c, (m.f[0].t, m.f[8].t), k))
        V.append(v)
        W.append((z3.If(same, v[0], v[0] - p[0]), z3.If(same, v[1], v[1] - p[1])))
    return V, W


def post(c, o):
    if o.threw:
        return [('never throws', False)]
    n = o.st.mem['data'].cells[0].el
    V, W = expected(c)
    r = []
    for k, nm in enumerate(('xx', 'xy', 'yx', 'yy')):
        g = at(c, (n.f[0].t, n.f[4].t), k)
        r += [('Re %s = data - weight*model' % nm, g[0] == W[k][0]), ('Im %s = data - weight*model' % nm, g[1] == W[k][1])]
    return r


def t_data(lc, c):
    V, W = expected(c)
    return stride_lemmas(lc, c, ('data+0.f0v', 'data+0.f4v'), V, W)


def targets(thorough):
    return [('apply', Target('subtract', 'drv_subtract', pre, post, templates=[t_data], timeout=60000, budget=400, frames=False,
                             about='every sample of every cross baseline becomes data - weight*model; autocorrelations unchanged'))]
