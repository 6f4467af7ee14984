"""Verification targets: a driver (extern "C" wrapper over the real code), a
symbolic pre-state, and named postconditions for every outcome."""
import time
import traceback
import z3
from irparse import Unsupported
from values import *
from engine import Engine, State, Budget, SpecFn, Obj
import stdmodels


class Ctx:
    """what a postcondition sees"""

    def __init__(self, E, st):
        self.E, self.st0 = E, st
        self.p = {}            # named symbolic inputs (z3 terms / nodes)
        self.ptr = {}

    # ---- symbolic inputs
    def u(self, name, w):
        x = z3.Int(name)
        self.st0.assume(z3.And(x >= 0, x < (1 << w)))
        self.p[name] = x
        return IV(w, u=x)

    def s(self, name, w):
        x = z3.Int(name)
        self.st0.assume(z3.And(x >= -(1 << (w - 1)), x < (1 << (w - 1))))
        self.p[name] = x
        return IV(w, s=x)

    def bv(self, name, w):
        x = z3.BitVec(name, w)
        self.p[name] = x
        return IV(w, bv=x)

    def bool(self, name):
        x = z3.Bool(name)
        self.p[name] = x
        return IV(1, b=x)

    def real(self, name, sz=8):
        x = z3.Real(name)
        self.p[name] = x
        return FV(x, sz)

    def obj(self, name, shape, maxlen=None):
        """reference to a symbolic object of the given shape"""
        n = named_node(shape, 0, name)
        self.p[name] = n
        rid = name
        o = Obj(name, {}, None, 'mem')
        self.st0.mem[rid] = o
        p = Ptr(rid)
        E = self.E
        if isinstance(n, StructN):
            for off, x in n.f.items():
                o.cells[off] = x if isinstance(x, VecN) else leaf_value(x)
        else:
            o.cells[0] = n if isinstance(n, VecN) else leaf_value(n)
        if isinstance(n, VecN):
            self.st0.assume(z3.And(n.len >= 0, n.len < (1 << 62) if maxlen is None else n.len <= maxlen))
        self.ptr[name] = p
        return p

    def arr(self, name, elem, length, const=False):
        """pointer to element 0 of a symbolic array of `length` elements"""
        shape = SVec(elem, elem.size)
        shape.raw = True
        n = VecN(shape, zi(length), named_node(elem, 1, name))
        self.p[name] = n
        self.st0.mem[name] = Obj(name, {0: n}, None, 'mem')
        self.ptr[name] = Ptr(name, (0, 0, 0))
        return self.ptr[name]

    def elem_fact(self, name, f):
        """precondition on every element of an input array, instantiated at each read"""
        n = self.p[name]
        self.E.elem_facts[name] = (n, f)

    def out(self, name):
        """uninitialised result object (sret)"""
        rid = name
        self.st0.mem[rid] = Obj(name, {}, None, 'mem')
        self.ptr[name] = Ptr(rid)
        return Ptr(rid)

    def assume(self, f):
        self.st0.assume(f)


class Out:
    """an outcome of the driver"""

    def __init__(self, kind, st, val, ctx):
        self.kind, self.st, self.val, self.ctx = kind, st, val, ctx
        self.threw = kind == 'throw'

    def cell(self, name, off=0):
        return self.st.mem[self.ctx.ptr[name].root].cells.get(off)


def named_node(shape, k, name):
    if isinstance(shape, (SInt, SFp)):
        return Leaf(shape, z3.Const(name, arr_sort(shape.sort(), k)))
    if isinstance(shape, SVec):
        return VecN(shape, z3.Const(name + '.len', arr_sort(z3.IntSort(), k)), named_node(shape.elem, k + 1, name + '.e'))
    if isinstance(shape, SStruct):
        return StructN(shape, {o: named_node(s, k, '%s.%d' % (name, o)) for o, s in shape.fields.items()})
    raise Unsupported('named_node %r' % shape)


class Target:
    def __init__(self, name, fn, pre, post, contracts=None, templates=(), covers=(), case=None, timeout=10000,
                 budget=120, type_shapes=None, enums=None, safety=True, setup=None, about='', max_unroll=40, nan=False, frames=True, cleanup=False, soft=False, nl=False):
        self.name, self.fn, self.pre, self.post = name, fn, pre, post
        self.contracts = contracts or {}
        self.templates = list(templates)
        self.covers = list(covers)
        self.case = case
        self.timeout, self.budget = timeout, budget
        self.type_shapes = type_shapes or {}
        self.enums = enums or {}
        self.safety = safety
        self.setup = setup
        self.about = about
        self.max_unroll = max_unroll
        self.nan = nan
        self.frames = frames
        self.cleanup = cleanup
        self.nl = nl
        self.soft = soft  # obligations the solvers give up on ('all': any that fails, where too weak an invariant is likely): not proved, rather than failed


def verify(mod, t, debug=False, timescale=1.0, tscale=1):
    """-> result dict"""
    t0 = time.time()
    E = Engine(mod)
    E.debug = debug
    E.type_shapes.update(t.type_shapes)
    E.enums.update(t.enums)
    E.safety = t.safety
    E.max_unroll = t.max_unroll
    E.nan = t.nan
    E.frames = t.frames
    E.cleanup = t.cleanup
    E.nl = t.nl
    E.check_term = True
    stdmodels.register(E)
    E.contracts = dict(t.contracts)
    E.t_end = t0 + t.budget * timescale
    E.tscale = tscale
    res = dict(target=t.name, fn=t.fn, status=None, obligations=0, discharged=0, failed=[], paths=0, backends={},
               solver_secs=0.0, about=t.about)
    ctx = None
    try:
        if t.setup:
            t.setup(E)
        st = State()
        ctx = Ctx(E, st)
        E.ctx = ctx
        args = t.pre(ctx)
        E.templates = [(lambda f: lambda lc: f(lc, ctx))(f) for f in t.templates]
        # vacuity: the precondition is satisfiable
        if E.check(st.pc) != 'sat':
            res['status'] = 'vacuous'
            res['why'] = 'precondition not satisfiable'
            return res
        fn = mod.funcs.get(t.fn)
        if fn is None:
            raise Unsupported('driver %s not in module' % t.fn)
        outs = E.exec_fn(st.fork(), fn, args)
        cover = {c[0]: False for c in t.covers}
        for o in outs:
            oc = Out(o[0], o[1], o[2], ctx)
            res['paths'] += 1
            goals = t.post(ctx, oc)
            for nm, g in goals:
                E.oblige(oc.st, g, nm, kind='post')
            for cn, cf in t.covers:
                if not cover[cn]:
                    c = cf(ctx, oc)
                    if c is not None and E.feasible(oc.st, c if not isinstance(c, bool) else z3.BoolVal(c)):
                        cover[cn] = True
        res['covers'] = cover
        obls = E.obls
        posts = [o for o in obls if o.kind == 'post']
        E.discharge(obls, t.timeout)
        bad = [o for o in obls if o.status != 'proved']
        res['obligations'] = len(obls)
        res['posts'] = len(posts)
        res['discharged'] = len(obls) - len(bad)
        for o in obls:
            res['backends'][o.backend] = res['backends'].get(o.backend, 0) + (o.status == 'proved')
        for o in bad:
            d = dict(name=o.name, status=o.status, kind=o.kind, goal=str(o.goal)[:1500])
            if o.model is not None:
                d['model'] = str(o.model)[:3000]
                if t.case:
                    try:
                        d['case'] = t.case(ctx, ModelView(o.model))
                    except Exception as e:
                        d['case_error'] = repr(e)
            res['failed'].append(d)
        if not posts:
            res['status'] = 'vacuous'
            res['why'] = 'no postcondition obligation generated'
        elif bad and (t.soft == 'all' or t.soft and all(o.status != 'refuted' for o in bad)):
            res['status'] = 'unsupported'
            res['failed'] = []
            res['why'] = 'no verdict of the solvers on %d of %d obligations (%s)' % (len(bad), len(obls), bad[0].name)
        elif bad:
            res['status'] = 'failed'
        elif not all(cover.values()):
            res['status'] = 'vacuous'
            res['why'] = 'unreachable: ' + ', '.join(c for c in cover if not cover[c])
        else:
            res['status'] = 'proved'
    except (Unsupported, Budget) as e:
        res['status'] = 'unsupported'
        res['why'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = ' > '.join(mod.dem.get(c, c)[:80] for c in E.callstack[-4:])
        if debug:
            traceback.print_exc()
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
        res['status'] = 'unsupported'
        res['why'] = 'engine: %r' % (e,)
        res['trace'] = traceback.format_exc()[-1500:]
        if debug:
            traceback.print_exc()
    res['stats'] = {k: v for k, v in E.stats.items()}
    res['term'] = [(f, h, ok) for f, h, ok in dict(((a, b), (a, b, c)) for a, b, c in E.term).values()]
    res['assumptions'] = sorted(E.assumptions)
    res['solver_secs'] = round(E.stats['qtime'], 2)
    res['secs'] = round(time.time() - t0, 2)
    return res


class ModelView:
    def __init__(self, m):
        self.m = m

    def i(self, e, default=0):
        v = self.m.eval(zi(e), model_completion=True)
        return v.as_long() if z3.is_int_value(v) else default

    def real(self, e):
        v = self.m.eval(e, model_completion=True)
        try:
            return float(v.numerator_as_long()) / float(v.denominator_as_long())
        except Exception:
            try:
                return float(v.approx(10).as_fraction())
            except Exception:
                return 0.0

    def s(self, node, cap=5000):
        """python bytes of a symbolic string"""
        n = min(self.i(node.len), cap)
        return bytes((self.i(z3.Select(node.el.t, k)) & 255) for k in range(n))
