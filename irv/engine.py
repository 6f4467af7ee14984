"""irv: contract-based deductive verification of C++ through its LLVM IR.

Path-splitting verification-condition generator.  Loops are cut with
inductive invariants (templates supplied by the unit plus generic templates,
filtered by Houdini: every surviving conjunct is proved initially and proved
preserved by the real loop body).  Calls are replaced by contracts where one is
registered (library models and contracted repository functions); all other
callees with a body are executed symbolically.  Every safety condition met on
the way (bounds, division, signed overflow, unreachable) becomes an obligation.
"""
import re
import time
import z3
from irparse import Module, Unsupported, Ty, FLOATS, INT, PTR
from values import *
import values as V


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('name', 'cells', 'size', 'kind')

    def __init__(self, name, cells=None, size=None, kind='mem'):
        self.name, self.cells, self.size, self.kind = name, cells if cells is not None else {}, size, kind

    def copy(self):
        return Obj(self.name, dict(self.cells), self.size, self.kind)


class State:
    __slots__ = ('mem', 'pc', 'qpc', 'ghost', 'trail')

    def __init__(self, mem=None, pc=None, qpc=None, ghost=None, trail=None):
        self.mem = mem if mem is not None else {}
        self.pc = pc if pc is not None else []
        self.qpc = qpc if qpc is not None else []
        self.ghost = ghost if ghost is not None else {}
        self.trail = trail if trail is not None else []

    def fork(self):
        return State(dict(self.mem), list(self.pc), list(self.qpc), dict(self.ghost), list(self.trail))

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        (self.qpc if has_quant(f) else self.pc).append(f)


_qcache = {}


def has_quant(e):
    k = e.get_id()
    r = _qcache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    seen = set()
    st = [e]
    res = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _qcache[k] = (e, res)
    return res


def consts_in(e, out=None):
    """uninterpreted constants of a term"""
    if out is None:
        out = {}
    if isinstance(e, (int, bool)):
        return out
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[i] = x
        elif z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return out


class SpecFn:
    """Recursive specification function; its definition is only used through
    explicit unfolding at ground applications (E.unfold)."""
    registry = {}

    def __init__(self, name, argsorts, ret, body):
        self.f = z3.Function(name, *argsorts, ret)
        self.body = body
        SpecFn.registry[name] = self

    def __call__(self, *a):
        return self.f(*[zi(x) if isinstance(x, int) else x for x in a])


_appcache = {}


def apps_of(e):
    """ground spec-function applications below e (cached per term)"""
    i0 = e.get_id()
    r = _appcache.get(i0)
    if r is not None and r[0].eq(e):
        return r[1]
    out = {}
    seen = set()
    st = [e]
    reg = SpecFn.registry
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue      # bound variables: not ground
        if z3.is_app(x):
            n = x.num_args()
            if n:
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in reg:
                    out[i] = x
                st.extend(x.children())
    res = list(out.values())
    _appcache[i0] = (e, res)
    return res


_defcache = {}


def def_of(ap):
    i = ap.get_id()
    r = _defcache.get(i)
    if r is not None and r[0].eq(ap):
        return r[1]
    b = SpecFn.registry[ap.decl().name()].body(*ap.children())
    if isinstance(b, int):
        b = z3.IntVal(b)
    d = ap == b
    _defcache[i] = (ap, d)
    return d


def unfold(es, depth=2):
    """definitional equations for the ground applications in es"""
    defs, done = [], {}
    cur = list(es)
    for _ in range(depth):
        new = []
        for e in cur:
            for ap in apps_of(e):
                if ap.get_id() in done:
                    continue
                done[ap.get_id()] = ap
                d = def_of(ap)
                defs.append(d)
                new.append(d)
        if not new:
            break
        cur = new
    return defs


class Oblig:
    __slots__ = ('name', 'pc', 'qpc', 'goal', 'status', 'model', 'secs', 'backend', 'where', 'info', 'kind')

    def __init__(self, name, st, goal, where='', kind='post', info=None):
        self.name, self.goal, self.where, self.kind, self.info = name, goal, where, kind, info
        self.pc, self.qpc = list(st.pc), list(st.qpc)
        self.status = None
        self.model = None
        self.secs = 0
        self.backend = None


def poly_like(g):
    """a real equality over array reads or products"""
    st, n = [g], 0
    while st and n < 400:
        x = st.pop()
        n += 1
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_STORE, z3.Z3_OP_POWER) or k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in x.children()) > 1:
            return True
        st += x.children()
    return False


def strip_goal(goal, facts):
    """introduce foralls / implications of the goal; returns list of (facts, goal)"""
    if z3.is_true(goal):
        return []
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += strip_goal(c, facts)
        return out
    if z3.is_implies(goal):
        a, b = goal.children()
        return strip_goal(b, facts + [a])
    if z3.is_quantifier(goal) and goal.is_forall():
        subs = [fresh('sk_' + goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
        return strip_goal(z3.substitute_vars(goal.body(), *reversed(subs)), facts)
    return [(facts, goal)]


def ground_instances(fs, qs, limit=400):
    """instances of single-variable integer quantifiers at the integer constants c and c-1 of fs"""
    seen, cs, todo = set(), [], list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and z3.is_int(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            cs.append(e)
        todo.extend(e.children())
    if len(cs) > 24:
        own, todo = set(), [fs[-1]]
        while todo:
            e = todo.pop()
            own.add(e.get_id())
            todo.extend(e.children())
        cs.sort(key=lambda c: c.get_id() not in own)
        cs = cs[:24]
    terms = list(cs) + [c - 1 for c in cs]
    terms += [a - b for a in cs[:8] for b in cs[:8] if a is not b] if len(cs) <= 12 else []
    out, flat = [], []
    for q in qs:
        todo = [q]
        while todo:
            e = todo.pop()
            if not (z3.is_quantifier(e) or z3.is_and(e)):
                e = z3.simplify(e)      # applied lambdas
                if not has_quant(e):
                    out.append(e)
                    continue
            if z3.is_and(e):
                todo.extend(e.children())
            elif z3.is_quantifier(e) and e.is_forall() and e.num_vars() == 1 and e.var_sort(0) == z3.IntSort():
                flat.append(e)
    for q in flat:
        for t in terms:
            if len(out) < limit:
                i = z3.simplify(z3.substitute_vars(q.body(), t))
                if not has_quant(i) and not z3.is_true(i):
                    out.append(i)
    return out


class Engine:
    def __init__(self, mod, unit=None):
        self.mod = mod
        self.unit = unit
        self.obls = []
        self.models = []          # (regex, fn)
        self.contracts = {}       # regex -> fn
        self.roots = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.sstack = []
        self.stats = dict(queries=0, qtime=0.0, loops=0, rounds=0, unrolled=0, inlined={}, contracts_used={},
                          models_used={}, invariants=0)
        self.depth = 0
        self.loop_cache = {}
        self.loop_stack = []
        self.templates = []       # callables (LoopCtx) -> [candidate]
        self.max_unroll = 40
        self.callstack = []
        self.t_end = None
        self.in_houdini = 0
        self.tscale = 1  # factor on every solver time limit
        self.writes = []          # stack of write sets
        self.cmps = []            # stack of comparison operand lists
        self.assumptions = set()
        self.type_shapes = {}     # LLVM named type / C++ name -> shape
        self.global_objs = {}
        self.safety = True
        self.term = []
        self.entry_mem = {}
        self._ctcache = {}
        self.debug = False
        self.noinline = []
        self.enums = {}
        self.check_term = False
        self.nan = False
        self.frames = True
        self.nl = False           # try with products as uninterpreted functions first
        self.elem_facts = {}
        self.visit = {}
        self.disc = 0

    # ------------------------------------------------------- solving
    def tick(self):
        if self.t_end is not None and time.time() > self.t_end:
            raise Budget('time budget exceeded')

    def sync(self, pc):
        s, stk = self.solver, self.sstack
        n = 0
        m = min(len(pc), len(stk))
        while n < m and stk[n] is pc[n]:
            n += 1
        # identical objects only; fall back to structural comparison
        while n < m and stk[n].eq(pc[n]):
            n += 1
        if len(stk) > n:
            s.pop(len(stk) - n)
            del stk[n:]
        for f in pc[n:]:
            s.push()
            s.add(f)
            stk.append(f)

    def check(self, pc, extra=()):
        """quantifier-free feasibility; 'unsat' / 'sat' / 'unknown'"""
        self.tick()
        self.sync(pc)
        t = time.time()
        s = self.solver
        s.push()
        for e in extra:
            s.add(e)
        r = s.check()
        s.pop()
        self.stats['queries'] += 1
        self.stats['qtime'] += time.time() - t
        return str(r)

    def feasible(self, st, c=None):
        if c is not None:
            if z3.is_true(c):
                c = None
            elif z3.is_false(c):
                return False
        return self.check(st.pc, [c] if c is not None else []) != 'unsat'

    def implied(self, st, c):
        """cheap: is c implied by the (quantifier-free) path condition"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st.pc, [z3.Not(c)]) == 'unsat'

    def prove(self, pc, qpc, goal, timeout=3000, full=False, split=True):
        """returns ('proved'|'refuted'|'unknown', model, backend)"""
        self.tick()
        timeout = int(timeout * self.tscale)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        pieces = strip_goal(goal, []) if split else [([], goal)]
        backend = 'syntactic'
        for facts, g in pieces:
            g2 = z3.simplify(g)
            if z3.is_true(g2):
                continue
            if z3.is_eq(g2) and z3.is_real(g2.arg(0)):
                d = z3.simplify(g2.arg(0) - g2.arg(1), som=True)
                if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                    backend = max(backend, 'z3-simplify')
                    continue
            q2 = [f for f in facts if has_quant(f)]
            f2 = [f for f in facts if not has_quant(f)]
            if z3.is_eq(g2) and z3.is_real(g2.arg(0)) and (full or poly_like(g2)):
                from poly import poly_prove
                t0 = time.time()
                ok = poly_prove(self, pc + f2, g, max(timeout, int(4000 * self.tscale)), qpc + q2)
                self.stats['qtime'] += time.time() - t0
                if ok:
                    backend = 'z3-poly'
                    continue
            r, m, be = self._prove1(pc + f2, qpc + q2, g2, timeout, full)
            if r != 'proved':
                return r, m, be
            backend = be
        return 'proved', None, backend

    def _prove1(self, pc, qpc, g, timeout, full):
        base = pc + [g]
        defs = unfold(base + qpc, 2)
        t = time.time()
        self.stats['queries'] += 1
        try:
            # 1. incremental, no quantifiers
            self.sync(pc)
            s = self.solver
            s.push()
            for d in defs:
                (s.add(d) if not has_quant(d) else None)
            s.add(z3.Not(g))
            s.set('timeout', min(timeout, int(1500 * self.tscale)))
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            s.set('timeout', 1500)
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if self.nl:
                from nlabs import prove as nl_prove
                if nl_prove(pc + qpc + defs, g, timeout):
                    return 'proved', None, 'z3 (products abstracted)'
            qd = [d for d in defs if has_quant(d)]
            if r == z3.sat and not qpc and not qd:
                return 'refuted', m, 'z3'
            # 2. with quantified facts, fresh solver
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(pc)
            s.add(qpc)
            s.add(defs)
            s.add(z3.Not(g))
            r2 = s.check()
            if r2 == z3.unsat:
                return 'proved', None, 'z3'
            if r2 == z3.sat:
                return 'refuted', s.model(), 'z3'
            if full:
                # 2b. quantified facts instantiated at the integer constants of the problem
                inst = ground_instances(pc + [g], qpc + qd)
                if inst:
                    s2 = z3.Solver()
                    s2.set('timeout', min(timeout, int(3000 * self.tscale)))
                    s2.add(pc)
                    s2.add(inst)
                    s2.add([d for d in unfold(base + inst, 2) if not has_quant(d)])
                    s2.add(z3.Not(g))
                    if s2.check() == z3.unsat:
                        return 'proved', None, 'z3-inst'
            if full:
                # 3. e-matching only
                s3 = z3.SimpleSolver()
                s3.set('timeout', timeout)
                s3.set('mbqi', False)
                s3.set('auto_config', False)
                s3.add(pc)
                s3.add(qpc)
                s3.add(unfold(base + qpc, 3))
                s3.add(z3.Not(g))
                if s3.check() == z3.unsat:
                    return 'proved', None, 'z3-ematch'
                # 4. nonlinear reals
                if not qpc:
                    s4 = z3.Tactic('qfnra-nlsat').solver() if False else z3.Solver()
                    s4.set('timeout', timeout * 2)
                    s4.set('smt.arith.solver', 2)
                    s4.add(pc + defs)
                    s4.add(z3.Not(g))
                    r4 = s4.check()
                    if r4 == z3.unsat:
                        return 'proved', None, 'z3-nra'
                    if r4 == z3.sat:
                        return 'refuted', s4.model(), 'z3-nra'
                # 5. cvc5
                if cvc5_unsat(s, timeout * 2):
                    return 'proved', None, 'cvc5'
            return 'unknown', m, 'z3'
        finally:
            self.stats['qtime'] += time.time() - t

    # ------------------------------------------------------- obligations
    def where(self):
        return ' > '.join(shortname(c) for c in self.callstack[-3:])

    def oblige(self, st, goal, name, kind='safety', info=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal) if not has_quant(goal) else goal
        if kind == 'safety':
            if not self.safety:
                st.assume(g)
                return
        self.obls.append(Oblig('%s @ %s' % (name, self.where()), st, g, self.where(), kind, info))
        if kind == 'safety' and not z3.is_true(g):
            st.assume(g)

    def discharge(self, obls, timeout=10000):
        out = []
        cache = {}
        for o in obls:
            t = time.time()
            key = (o.goal.get_id(), tuple(p.get_id() for p in o.pc), tuple(p.get_id() for p in o.qpc))
            if key in cache:
                o.status, o.model, o.backend = cache[key]
            else:
                o.status, o.model, o.backend = self.prove(o.pc, o.qpc, o.goal, timeout, full=True)
                cache[key] = (o.status, o.model, o.backend)
            o.secs = time.time() - t
            out.append(o)
        return out

    # ------------------------------------------------------- memory
    def new_root(self, st, name, size=None, kind='mem', cells=None):
        self.roots += 1
        rid = '%s#%d' % (name, self.roots)
        st.mem[rid] = Obj(name, cells, size, kind)
        return rid

    def record_write(self, root, path, what):
        if self.writes:
            self.writes[-1].append((root, path, what))

    def get_root(self, st, root):
        o = st.mem.get(root)
        if o is None:
            if root in self.global_objs:
                o = self.global_objs[root]
                st.mem[root] = o
                return o
            raise Unsupported('dangling root %s' % root)
        return o

    def cell_node(self, st, ptr, what='access', need_vec=True):
        """the VecN held exactly at ptr (container object), with k = 0"""
        root, path = ptr.root, ptr.path
        if root is None:
            raise Unsupported('null container')
        o = self.get_root(st, root)
        n = o.cells.get(path[0])
        if n is None:
            return None
        i = 1
        while i < len(path):
            if not isinstance(n, VecN):
                raise Unsupported('path into non-container')
            self.bound(st, n, path[i], what)
            n = n_sel(n.el, path[i])
            off = path[i + 1]
            n = self.field(n, off)
            i += 2
        return n

    def field(self, n, off):
        if isinstance(n, StructN):
            if off in n.f:
                f = n.f[off]
                return f
            # nested struct at largest offset <= off
            for o in sorted(n.f, reverse=True):
                if o <= off and isinstance(n.f[o], StructN):
                    return self.field(n.f[o], off - o)
            raise Unsupported('no field at offset %d of %r' % (off, n.shape))
        if off == 0:
            return n
        raise Unsupported('no field at offset %d of %r' % (off, getattr(n, 'shape', None)))

    def bound(self, st, n, idx, what):
        up = n.len
        if isinstance(n.shape, SStr):
            g = z3.And(zi(idx) >= 0, zi(idx) <= zi(up))
        else:
            g = z3.And(zi(idx) >= 0, zi(idx) < zi(up))
        g = z3.simplify(g)
        if z3.is_true(g):
            return
        self.oblige(st, g, 'in-bounds %s' % what)

    def norm(self, st, ptr):
        """route a root-level pointer into a raw array cell if there is one"""
        if len(ptr.path) == 1:
            o = self.get_root(st, ptr.root)
            off = ptr.path[0]
            c = o.cells.get(off)
            if c is not None and not (isinstance(c, VecN) and getattr(c.shape, 'raw', False)):
                return ptr
            for b, n in o.cells.items():
                if isinstance(n, VecN) and getattr(n.shape, 'raw', False) and b <= off:
                    es = n.shape.elem.size
                    k = (off - b) // es
                    if isinstance(n.len, int) or z3.is_int_value(zi(n.len)):
                        if k >= const(simp(n.len)):
                            continue
                    return Ptr(ptr.root, (b, k, (off - b) % es))
        else:
            # element of a raw array nested at root
            pass
        return ptr

    def load(self, st, ptr, ty):
        if not isinstance(ptr, Ptr):
            raise Unsupported('load through %r' % (ptr,))
        if ptr.root is None:
            self.oblige(st, False, 'null dereference')
            raise Dead()
        ty = self.mod.resolve(ty)
        if ty.k == 'vec' or ty.k == 'struct' or ty.k == 'arr':
            return Agg([self.load(st, self.padd(st, ptr, o), t) for o, t in self.members(ty)])
        ptr = self.norm(st, ptr)
        size = self.mod.sizeof(ty)
        if len(ptr.path) == 1:
            o = self.get_root(st, ptr.root)
            off = ptr.path[0]
            c = o.cells.get(off)
            if c is None:
                return self.load_bytes(st, o, ptr, ty, size)
            if isinstance(c, VecN):
                raise Unsupported('scalar load from container %s+%d' % (o.name, off))
            return self.coerce(c, ty, st)
        n = self.elem_leaf(st, ptr, 'load')
        if isinstance(n, StructN):
            n = self.field(n, 0)
        if isinstance(n, VecN):
            raise Unsupported('scalar load from nested container')
        v = leaf_value(n)
        self.range_fact(st, v, n)
        self.elem_fact(st, ptr)
        return self.coerce(v, ty, st)

    def elem_fact(self, st, ptr):
        """instantiate the precondition's element facts of an unmodified input array"""
        if len(ptr.path) != 3:
            return
        for root, (node, f) in self.elem_facts.items():
            x = self.get_root(st, ptr.root).cells.get(ptr.path[0])
            copy = isinstance(x, VecN) and isinstance(x.el, Leaf) and isinstance(node.el, Leaf) and x.el.t.eq(node.el.t)
            if copy or root == ptr.root and x is node:
                k = zi(ptr.path[1])
                st.assume(z3.Implies(z3.And(k >= 0, k < zi(node.len)), f(k)))

    def range_fact(self, st, v, n):
        if isinstance(v, IV) and v.const() is None:
            if n.shape.rep == 'u' and v.has_u:
                if not is_fresh_ranged(v.u):
                    st.assume(z3.And(v.u >= 0, v.u < (1 << v.w)))
            elif n.shape.rep == 's' and v.has_s:
                st.assume(z3.And(v.s >= -(1 << (v.w - 1)), v.s < (1 << (v.w - 1))))

    def elem_leaf(self, st, ptr, what):
        o = self.get_root(st, ptr.root)
        path = ptr.path
        n = o.cells.get(path[0])
        if n is None:
            n = self.make_raw(st, ptr)
        i = 1
        while i < len(path):
            if not isinstance(n, VecN):
                if len(path) == i + 2:
                    n2 = self.make_raw(st, ptr)
                    if n2 is not None:
                        n = n2
                        continue
                raise Unsupported('path into non-container %s %s' % (o.name, path))
            self.bound(st, n, path[i], what)
            isstr, ln, idx = isinstance(n.shape, SStr), n.len, path[i]
            n = n_sel(n.el, path[i])
            if isstr and isinstance(n, Leaf):
                n = Leaf(n.shape, z3.simplify(z3.If(zi(idx) == zi(ln), z3.IntVal(0), n.t)))
            n = self.field(n, path[i + 1])
            i += 2
        return n

    def make_raw(self, st, ptr):
        """turn scalars starting at path[0] into a raw array"""
        o = st.mem[ptr.root].copy()
        base = ptr.path[0]
        offs = sorted(k for k in o.cells if k >= base)
        if not offs or offs[0] != base:
            raise Unsupported('indexed access to untyped memory %s+%s' % (o.name, base))
        first = o.cells[base]
        if isinstance(first, FV):
            sh = SFp(first.sz)
        elif isinstance(first, IV):
            sh = SInt(first.w, 'bv' if (first.has_bv and not first.has_u and not first.has_s) else 'u' if first.has_u else 's')
        else:
            raise Unsupported('indexed access to memory of pointers')
        vals = []
        k = base
        while k in o.cells and isinstance(o.cells[k], type(first)):
            vals.append(o.cells[k])
            k += sh.size
        srt = sh.sort()
        arr = z3.K(z3.IntSort(), z3.IntVal(0) if srt == z3.IntSort() else z3.RealVal(0) if srt == z3.RealSort() else z3.BitVecVal(0, sh.w))
        for i, v in enumerate(vals):
            arr = z3.Store(arr, i, value_leaf(sh, v).t)
            del o.cells[base + i * sh.size]
        shape = SVec(sh, sh.size * len(vals))
        shape.raw = True
        n = VecN(shape, z3.IntVal(len(vals)), Leaf(sh, arr))
        o.cells[base] = n
        st.mem[ptr.root] = o
        return n

    def load_bytes(self, st, o, ptr, ty, size):
        off = ptr.path[0]
        if o.kind == 'zero':
            return self.zero(ty)
        # wider load of narrower cells / narrower load of a wider cell (little endian)
        if ty.k == 'int':
            parts, k = [], off
            while k < off + size:
                c = o.cells.get(k)
                if not isinstance(c, IV) or c.w % 8:
                    parts = None
                    break
                parts.append(c)
                k += c.w // 8
            if parts and k == off + size:
                if all(p.const() is not None for p in parts):
                    v, sh = 0, 0
                    for p in parts:
                        v |= p.const() << sh
                        sh += p.w
                    return IV.c(size * 8, v)
                return IV(size * 8, bv=z3.simplify(z3.Concat(*[p.bv for p in reversed(parts)])))
            for b, c in o.cells.items():
                if isinstance(c, IV) and b < off and off + size <= b + c.w // 8:
                    lo = (off - b) * 8
                    if c.const() is not None:
                        return IV.c(size * 8, c.const() >> lo)
                    return IV(size * 8, bv=z3.simplify(z3.Extract(lo + size * 8 - 1, lo, c.bv)))
        return UNDEF

    def coerce(self, c, ty, st=None):
        if c is UNDEF:
            return c
        if ty.k == 'ptr':
            if isinstance(c, (Ptr, FnPtr)):
                return c
            if isinstance(c, IV) and c.const() == 0:
                return NULL
            raise Unsupported('pointer load of %r' % c)
        if ty.k == 'fp':
            if isinstance(c, FV):
                return c
            if isinstance(c, IV) and c.const() == 0:
                return FV(z3.RealVal(0), FLOATS[ty.a])
            raise Unsupported('float load of %r' % c)
        if ty.k == 'int':
            if isinstance(c, IV):
                if c.w == ty.a:
                    return c
                if c.w > ty.a:
                    return self.trunc(c, ty.a, st)
                if ty.a == 8 and c.w == 1:
                    return IV(8, u=c.u)
            if isinstance(c, PtrInt) and ty.a == 64:
                return c
            if isinstance(c, Ptr) and ty.a == 64:
                return PtrInt(c)
            raise Unsupported('int load i%d of %r' % (ty.a, c))
        raise Unsupported('load type %r' % ty)

    def members(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            return self.mod.layout(ty)[2]
        if ty.k in ('arr', 'vec'):
            s = self.mod.sizeof(ty.b)
            return [(i * s, ty.b) for i in range(ty.a)]
        raise Unsupported('members of %r' % ty)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'int':
            return IV.c(ty.a, 0)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'fp':
            return FV(z3.RealVal(0), FLOATS[ty.a])
        return Agg([self.zero(t) for _, t in self.members(ty)])

    def store(self, st, ptr, v, ty=None):
        if not isinstance(ptr, Ptr):
            raise Unsupported('store through %r' % (ptr,))
        if ptr.root is None:
            self.oblige(st, False, 'null dereference')
            raise Dead()
        if isinstance(v, Agg):
            if ty is None:
                raise Unsupported('untyped aggregate store')
            for (o, t), x in zip(self.members(ty), v.vals):
                self.store(st, self.padd(st, ptr, o), x, t)
            return
        ptr = self.norm(st, ptr)
        o = self.get_root(st, ptr.root)
        if o.kind == 'const':
            self.oblige(st, False, 'write to constant memory')
            raise Dead()
        self.record_write(ptr.root, ptr.path, 'val')
        o = o.copy()
        if len(ptr.path) == 1:
            off = ptr.path[0]
            size = val_size(v, ty, self.mod)
            # clear overlapping cells
            for k in [k for k in o.cells if off < k < off + size]:
                del o.cells[k]
            for k, c in list(o.cells.items()):
                if k < off and not isinstance(c, VecN):
                    cs = val_size(c, None, self.mod)
                    if cs and k + cs > off:
                        self.split_cell(o, k, c)
            o.cells[off] = v
            st.mem[ptr.root] = o
            return
        if v is UNDEF:
            return
        # the elem_leaf access also registers bounds obligations and converts raw arrays
        self.elem_leaf(st, ptr, 'store')
        o = st.mem[ptr.root].copy()
        o.cells[ptr.path[0]] = self.upd(o.cells[ptr.path[0]], ptr.path[1:], lambda old: value_leaf(old.shape, self.fit(v, old.shape, st)))
        st.mem[ptr.root] = o

    def split_cell(self, o, k, c):
        if isinstance(c, IV) and c.w % 8 == 0:
            for b in range(c.w // 8):
                if c.const() is not None:
                    o.cells[k + b] = IV.c(8, c.const() >> (8 * b))
                else:
                    o.cells[k + b] = IV(8, bv=z3.simplify(z3.Extract(8 * b + 7, 8 * b, c.bv)))
            return
        if c is UNDEF:
            del o.cells[k]
            return
        raise Unsupported('partial overwrite of %r' % (c,))

    def fit(self, v, shape, st):
        return v

    def upd(self, n, path, f):
        """functional update of node n (k=0) at path (idx, off, idx, off...)"""
        if not path:
            return f(n)
        idx, off = path[0], path[1]
        el = n_sel(n.el, idx)
        new = self.upd_field(el, off, lambda x: self.upd(x, path[2:], f))
        return VecN(n.shape, n.len, n_store_sub(n.el, idx, el, new))

    def upd_field(self, n, off, f):
        if isinstance(n, StructN):
            if off in n.f and not (isinstance(n.f[off], StructN)):
                d = dict(n.f)
                d[off] = f(d[off])
                return StructN(n.shape, d)
            for o in sorted(n.f, reverse=True):
                if o <= off and isinstance(n.f[o], StructN):
                    d = dict(n.f)
                    d[o] = self.upd_field(d[o], off - o, f)
                    return StructN(n.shape, d)
            raise Unsupported('no field %d' % off)
        if off != 0:
            raise Unsupported('field offset %d in scalar' % off)
        return f(n)

    def set_container(self, st, ptr, node, what='node'):
        self.record_write(ptr.root, ptr.path, what)
        o = self.get_root(st, ptr.root).copy()
        if len(ptr.path) == 1:
            o.cells[ptr.path[0]] = node
        else:
            o.cells[ptr.path[0]] = self.upd(o.cells[ptr.path[0]], ptr.path[1:], lambda old: node)
        st.mem[ptr.root] = o

    # typed node read / write (structs, scalars, containers)
    def read_node(self, st, ptr, shape):
        if isinstance(shape, SStruct):
            if len(ptr.path) > 1:
                n = self.elem_leaf(st, ptr, 'read')
                if isinstance(n, StructN) and n.shape.size == shape.size:
                    return n
            return StructN(shape, {o: self.read_node(st, self.padd(st, ptr, o), s) for o, s in shape.fields.items()})
        if isinstance(shape, SVec) and not getattr(shape, 'raw', False):
            n = self.cell_node(st, ptr)
            if n is None:
                raise Unsupported('uninitialised container read')
            return n
        if isinstance(shape, SVec):
            raise Unsupported('read raw array node')
        ty = INT(shape.w) if isinstance(shape, SInt) else Ty('fp', 'float' if shape.size == 4 else 'double')
        v = self.load(st, ptr, ty)
        if v is UNDEF:
            return Leaf(shape, fresh('undef', shape.sort()))
        return value_leaf(shape, v)

    def write_node(self, st, ptr, n):
        if isinstance(n, StructN):
            for o, x in n.f.items():
                self.write_node(st, self.padd(st, ptr, o), x)
        elif isinstance(n, VecN):
            self.set_container(st, ptr, n)
        else:
            self.store(st, ptr, leaf_value(n))

    # ------------------------------------------------------- pointers
    def elem_size(self, st, ptr):
        """element size of the innermost container of an indexed path"""
        n = self.get_root(st, ptr.root).cells.get(ptr.path[0])
        if n is None:
            return None
        i = 1
        while True:
            if not isinstance(n, VecN):
                return None
            if i + 2 >= len(ptr.path):
                return n.shape.elem.size
            n = self.shape_field(n.el, ptr.path[i + 1])
            i += 2

    def shape_field(self, n, off):
        return self.field(n, off)

    def padd(self, st, ptr, b):
        """pointer plus concrete byte offset"""
        if b == 0:
            return ptr
        if len(ptr.path) == 1:
            return Ptr(ptr.root, (ptr.path[0] + b,))
        es = self.elem_size(st, ptr)
        tot = ptr.path[-1] + b
        if es is None:
            if getattr(ptr, 'scale', None):
                es = ptr.scale
            else:
                raise Unsupported('pointer arithmetic in untyped array')
        q, r = divmod(tot, es)
        idx = ptr.path[-2]
        if q:
            idx = simp(zi(idx) + q)
        return Ptr(ptr.root, ptr.path[:-2] + (idx, r))

    def padd_sym(self, st, ptr, k, scale):
        """pointer plus k*scale bytes, k symbolic"""
        ck = const(simp(k))
        if ck is not None:
            return [(st, self.padd(st, ptr, ck * scale))]
        if ptr.root is None:
            raise Unsupported('arithmetic on null')
        if len(ptr.path) == 1:
            p2 = self.norm(st, ptr)
            if len(p2.path) > 1:
                return self.padd_sym(st, p2, k, scale)
            # raw memory: array of elements of size scale
            c = self.get_root(st, ptr.root).cells.get(ptr.path[0])
            if c is not None and not isinstance(c, VecN):
                n = self.make_raw(st, ptr)
                return self.padd_sym(st, Ptr(ptr.root, (ptr.path[0], 0, 0)), k, scale)
            raise Unsupported('symbolic index into %s+%d' % (ptr.root, ptr.path[0]))
        es = self.elem_size(st, ptr)
        if es is None:
            raise Unsupported('symbolic index in untyped array')
        idx, off = ptr.path[-2], ptr.path[-1]
        if scale % es == 0:
            return [(st, Ptr(ptr.root, ptr.path[:-2] + (simp(zi(idx) + zi(k) * (scale // es)), off)))]
        if es % scale == 0:
            r = es // scale
            # k = r*q + rem; split on rem
            out = []
            k = zi(k)
            a = linear_mod(k, r)
            if a is not None:
                q, rem = a
                return [(st, self.padd(st, Ptr(ptr.root, ptr.path[:-2] + (simp(zi(idx) + q), off)), rem * scale))]
            q = fresh_int('q')
            st.assume(z3.And(k >= r * q, k < r * q + r))
            for rem in range(r):
                c = z3.simplify(k == r * q + rem)
                if self.feasible(st, c):
                    s2 = st.fork()
                    s2.assume(c)
                    out.append((s2, self.padd(s2, Ptr(ptr.root, ptr.path[:-2] + (simp(zi(idx) + q), off)), rem * scale)))
            return out
        raise Unsupported('stride %d in elements of %d bytes' % (scale, es))

    def pdiff(self, st, a, b):
        """byte difference -> IV (with .scaled)"""
        if a.root != b.root:
            if a.root is None and b.root is None:
                return IV.c(64, 0)
            raise Unsupported('difference of unrelated pointers')
        if len(a.path) == 1 and len(b.path) == 1:
            return IV.c(64, a.path[0] - b.path[0])
        if len(a.path) == 1:
            a = self.norm(st, a)
        if len(b.path) == 1:
            b = self.norm(st, b)
        if len(a.path) != len(b.path):
            raise Unsupported('difference of unrelated pointers')
        if not all(same(x, y) for x, y in zip(a.path[:-2], b.path[:-2])):
            raise Unsupported('difference of unrelated pointers')
        es = self.elem_size(st, a)
        if es is None:
            raise Unsupported('pointer difference in untyped memory')
        d = simp(zi(a.path[-2]) - zi(b.path[-2]))
        o = a.path[-1] - b.path[-1]
        v = simp(zi(d) * es + o)
        r = SIV(64, v)
        if o == 0:
            r.scaled = (d, es)
        return r

    # ------------------------------------------------------- operands
    def const_value(self, ty, v, st):
        k = v[0]
        ty = self.mod.resolve(ty)
        if k == 'int':
            return IV.c(ty.a, v[1])
        if k == 'fp':
            from fractions import Fraction
            x = v[1]
            if x != x or x in (float('inf'), float('-inf')):
                nm = 'NaN' if x != x else 'INF' if x > 0 else 'NINF'
                return FV(z3.Real(nm), FLOATS[ty.a])
            if ty.a == 'double':
                fr = decimal_fraction(x)
            else:
                fr = decimal_fraction(x, 7)
            return FV(z3.RealVal(str(fr)), FLOATS[ty.a])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'glob':
            return self.glob(v[1], st)
        if k == 'agg':
            return Agg([self.const_value(t, x, st) for t, x in v[1]])
        if k == 'str':
            return Agg([IV.c(8, b) for b in v[1]])
        if k == 'cexpr':
            if v[1] == 'gep':
                st0, ops = v[2], v[3]
                base = self.const_value(ops[0][0], ops[0][1], st)
                off = 0
                t = st0
                for n, (it, iv) in enumerate(ops[1:]):
                    i = self.const_value(it, iv, st).const()
                    i = i - (1 << it.a) if i >> (it.a - 1) else i
                    if n == 0:
                        off += i * self.mod.sizeof(t)
                    else:
                        t = self.mod.resolve(t)
                        if t.k == 'struct':
                            o, t = self.mod.layout(t)[2][i]
                            off += o
                        else:
                            off += i * self.mod.sizeof(t.b)
                            t = t.b
                return self.padd(st, base, off)
            if v[1] in ('bitcast', 'addrspacecast'):
                return self.const_value(v[2], v[3], st)
        raise Unsupported('constant %r' % (v,))

    def glob(self, name, st):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        rid = '@' + name
        if rid not in st.mem:
            if rid not in self.global_objs:
                self.global_objs[rid] = self.init_global(name, st)
            st.mem[rid] = self.global_objs[rid]
        return Ptr(rid, (0,))

    def init_global(self, name, st):
        text = self.mod.globals.get(name)
        if text is None:
            raise Unsupported('unknown global ' + name)
        m = re.match(r'(.*?)\b(constant|global)\s+', text)
        if not m:
            raise Unsupported('global %s' % name)
        from irparse import P
        p = P(text, self.mod, m.end())
        ty = p.type()
        obj = Obj('@' + name, {}, None, 'const' if m.group(2) == 'constant' else 'mem')
        if 'external' in m.group(1):
            obj.kind = 'extern'
            return obj
        v = p.value(ty)
        if v[0] == 'str':
            sh = SVec(SInt(8, 's'), len(v[1]))
            sh.raw = True
            arr = z3.K(z3.IntSort(), z3.IntVal(0))
            for i, b in enumerate(v[1]):
                if b:
                    arr = z3.Store(arr, i, b if b < 128 else b - 256)
            n = VecN(sh, z3.IntVal(len(v[1])), Leaf(sh.elem, arr))
            n_bytes[id(n)] = (n, v[1])
            obj.cells[0] = n
            return obj
        if v[0] == 'zero' and obj.kind == 'mem':
            obj.kind = 'zero'
            return obj
        self._fill(obj, 0, ty, v, st)
        return obj

    def _fill(self, obj, off, ty, v, st):
        t = self.mod.resolve(ty)
        if t.k in ('struct', 'arr', 'vec'):
            mem = self.members(t)
            if v[0] == 'zero':
                for o, mt in mem:
                    self._fill(obj, off + o, mt, ('zero',), st)
            elif v[0] == 'agg':
                for (o, mt), (_, x) in zip(mem, v[1]):
                    self._fill(obj, off + o, mt, x, st)
            elif v[0] == 'str':
                for i, b in enumerate(v[1]):
                    obj.cells[off + i] = IV.c(8, b)
            elif v[0] == 'undef':
                pass
            else:
                raise Unsupported('global init %r' % (v,))
            return
        obj.cells[off] = self.const_value(t, v, st)

    def val(self, regs, ty, v, st):
        if v[0] == 'reg':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register %s' % v[1])
        return self.const_value(ty, v, st)

    # ------------------------------------------------------- integer ops
    def wrap_u(self, st, e, w, lo=True, hi=True):
        """e mod 2^w where e is one add/sub away from range"""
        e = simp(e)
        if isinstance(e, int):
            return e & ((1 << w) - 1)
        M = 1 << w
        if hi and lo:
            if self.implied(st, z3.And(e >= 0, e < M)):
                return e
            return simp(z3.If(e >= M, e - M, z3.If(e < 0, e + M, e)))
        if hi:
            if self.implied(st, e < M):
                return e
            return simp(z3.If(e >= M, e - M, e))
        if self.implied(st, e >= 0):
            return e
        return simp(z3.If(e < 0, e + M, e))

    def binop(self, st, op, a, b, w, fl):
        M = 1 << w
        H = 1 << (w - 1)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt) and op == 'sub':
            return self.pdiff(st, a.p, b.p)
        if isinstance(a, PtrInt) and op in ('add', 'sub') and isinstance(b, IV) and b.const() is not None:
            return PtrInt(self.padd(st, a.p, b.s if op == 'add' else -b.s))
        if not (isinstance(a, IV) and isinstance(b, IV)):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            raise Unsupported('binop %s on %r, %r' % (op, a, b))
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return self.cbin(st, op, ca, cb, w)
        if w == 1:
            if op == 'and':
                return IV(1, b=z3.simplify(z3.And(a.b, b.b)))
            if op == 'or':
                return IV(1, b=z3.simplify(z3.Or(a.b, b.b)))
            if op in ('xor', 'add', 'sub'):
                return IV(1, b=z3.simplify(z3.Xor(a.b, b.b)))
        bvmode = (a.has_bv and not a.has_u and not a.has_s) or (b.has_bv and not b.has_u and not b.has_s)
        if bvmode and op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem'):
            x, y = a.bv, b.bv
            f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
                 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
                 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y)}[op]
            return IV(w, bv=z3.simplify(f()))
        if op in ('add', 'sub'):
            if 'nsw' in fl:
                e = simp(zi(a.s) + zi(b.s) if op == 'add' else zi(a.s) - zi(b.s))
                self.oblige(st, z3.And(zi(e) >= -H, zi(e) < H), 'no signed overflow (%s i%d)' % (op, w))
                r = IV(w, s=e)
                if (a.has_u or ca is not None) and (b.has_u or cb is not None) and 'nuw' in fl:
                    r = IV(w, u=e)
                return r
            if op == 'add' and cb is not None and cb >= H:
                op, b = 'sub', IV.c(w, M - cb)
                cb = b.const()
            elif op == 'sub' and cb is not None and cb > H:
                op, b = 'add', IV.c(w, M - cb)
                cb = b.const()
            # choose a representation
            if (a.has_s and not a.has_u) and (b.has_s or cb is not None) and op == 'add' or (a.has_s and not a.has_u):
                e = simp(zi(a.s) + zi(b.s) if op == 'add' else zi(a.s) - zi(b.s))
                if self.implied(st, z3.And(zi(e) >= -H, zi(e) < H)):
                    return IV(w, s=e)
            if op == 'add':
                return IV(w, u=self.wrap_u(st, zi(a.u) + zi(b.u), w, lo=False))
            return IV(w, u=self.wrap_u(st, zi(a.u) - zi(b.u), w, hi=False))
        if op == 'mul':
            if 'nsw' in fl:
                e = simp(zi(a.s) * zi(b.s))
                self.oblige(st, z3.And(zi(e) >= -H, zi(e) < H), 'no signed overflow (mul i%d)' % w)
                return IV(w, s=e)
            e = simp(zi(a.u) * zi(b.u))
            if self.implied(st, z3.And(zi(e) >= 0, zi(e) < M)):
                return IV(w, u=e)
            if a.has_s or b.has_s:
                e2 = simp(zi(a.s) * zi(b.s))
                if self.implied(st, z3.And(zi(e2) >= -H, zi(e2) < H)):
                    return IV(w, s=e2)
            return IV(w, u=simp(zi(e) % M))
        if op in ('udiv', 'urem'):
            self.oblige(st, zi(b.u) != 0, 'division by zero')
            e = zi(a.u) / zi(b.u) if op == 'udiv' else zi(a.u) % zi(b.u)
            if op == 'udiv' and cb is not None and getattr(a, 'scaled', None) and a.scaled[1] % cb == 0:
                e = zi(a.scaled[0]) * (a.scaled[1] // cb)
            return IV(w, u=simp(e))
        if op in ('sdiv', 'srem'):
            self.oblige(st, zi(b.u if b.has_u else b.s) != 0, 'division by zero')
            sc = getattr(a, 'scaled', None)
            if op == 'sdiv' and cb is not None and sc and sc[1] % b.s == 0:
                return IV(w, s=simp(zi(sc[0]) * (sc[1] // b.s)))
            x, y = zi(a.s), zi(b.s)
            if self.implied(st, x >= 0) and self.implied(st, y > 0):
                q, r = x / y, x % y
            else:
                q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
                r = x - y * q
            return IV(w, s=simp(q if op == 'sdiv' else r))
        if op == 'and':
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None and (cb + 1) & cb == 0 and not bvmode:
                return IV(w, u=simp(zi(a.u) % (cb + 1)))
        if op == 'or' and 'disjoint' in fl:
            return self.binop(st, 'add', a, b, w, set())
        if op == 'xor' and cb == M - 1 and not bvmode:
            return IV(w, s=simp(-zi(a.s) - 1))
        if op == 'shl' and cb is not None and not bvmode:
            if 'nsw' in fl and not 'nuw' in fl:
                e = simp(zi(a.s) * (1 << cb))
                self.oblige(st, z3.And(zi(e) >= -H, zi(e) < H), 'no signed overflow (shl i%d)' % w)
                return IV(w, s=e)
            return self.binop(st, 'mul', a, IV.c(w, 1 << cb), w, set())
        if op == 'lshr' and cb is not None and not bvmode:
            return IV(w, u=simp(zi(a.u) / (1 << cb)))
        if op == 'ashr' and cb is not None and not bvmode:
            sc = getattr(a, 'scaled', None)
            if sc and sc[1] % (1 << cb) == 0:
                return IV(w, s=simp(zi(sc[0]) * (sc[1] >> cb)))
            return IV(w, s=simp(zi(a.s) / (1 << cb)))
        x, y = a.bv, b.bv
        f = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
             'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]
        return IV(w, bv=z3.simplify(f()))

    def cbin(self, st, op, a, b, w):
        M = 1 << w
        sa, sb = (a - M if a >> (w - 1) else a), (b - M if b >> (w - 1) else b)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
            self.oblige(st, False, 'division by zero')
            raise Dead()
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'udiv':
            r = a // b
        elif op == 'urem':
            r = a % b
        elif op == 'sdiv':
            r = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
        elif op == 'srem':
            r = abs(sa) % abs(sb) * (-1 if sa < 0 else 1)
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = a >> b
        elif op == 'ashr':
            r = sa >> b
        return IV.c(w, r)

    def icmp(self, st, pred, a, b):
        """-> z3 Bool"""
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, IV) and a.const() == 0:
                a = NULL
            if isinstance(b, IV) and b.const() == 0:
                b = NULL
            return self.pcmp(st, pred, a, b)
        if a is UNDEF or b is UNDEF:
            raise Unsupported('compare of undefined value')
        if not (isinstance(a, IV) and isinstance(b, IV)):
            raise Unsupported('icmp %r %r' % (a, b))
        if a.w > 1 and pred in ('eq', 'ne') and a._b is not None and b.const() == 0:
            return a._b if pred == 'ne' else z3.simplify(z3.Not(a._b))
        if a.w == 1:
            x, y = a.b, b.b
            if pred == 'eq':
                return z3.simplify(x == y)
            if pred == 'ne':
                return z3.simplify(x != y)
        only_bv = lambda v: v.has_bv and not v.has_u and not v.has_s
        if only_bv(a) or only_bv(b):
            x, y = a.bv, b.bv
            f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]
            return z3.simplify(f())
        if pred in ('eq', 'ne'):
            # prefer a representation both already have
            if a.has_s and b.has_s and not (a.has_u and b.has_u):
                x, y = a.s, b.s
            elif a.has_u and b.has_u:
                x, y = a.u, b.u
            elif a.has_s:
                x, y = a.s, b.s
            else:
                x, y = a.u, b.u
        elif pred[0] == 'u':
            x, y = self.to_u(st, a), self.to_u(st, b)
        else:
            x, y = self.to_s(st, a), self.to_s(st, b)
        x, y = zi(x), zi(y)
        if self.cmps:
            self.cmps[-1].append((x, y))
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: x < y, 'ule': lambda: x <= y,
             'ugt': lambda: x > y, 'uge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]
        return z3.simplify(f())

    def to_u(self, st, a):
        if not a.has_u and a.has_s and a.const() is None:
            if self.implied(st, a.s >= 0):
                a._u = a._s
        return a.u

    def to_s(self, st, a):
        if not a.has_s and a.has_u and a.const() is None:
            if self.implied(st, zi(a.u) < (1 << (a.w - 1))):
                a._s = a._u
        return a.s

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                r = a.name == b.name
            else:
                r = False
            return z3.BoolVal(r if pred == 'eq' else not r)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('pcmp %r %r' % (a, b))
        if a.root != b.root:
            if pred == 'eq':
                return z3.BoolVal(False)
            if pred == 'ne':
                return z3.BoolVal(True)
            raise Unsupported('ordering of unrelated pointers')
        if a.root is None:
            return z3.BoolVal(pred in ('eq', 'ule', 'uge'))
        if len(a.path) == 1 and len(b.path) > 1:
            a = self.norm(st, a)
        if len(b.path) == 1 and len(a.path) > 1:
            b = self.norm(st, b)
        if len(a.path) != len(b.path):
            if pred == 'eq':
                return z3.BoolVal(False)
            if pred == 'ne':
                return z3.BoolVal(True)
            raise Unsupported('pointer compare')
        cond = []
        x, y = 0, 0
        if len(a.path) == 1:
            x, y = zi(a.path[0]), zi(b.path[0])
        else:
            if not all(same(p, q) for p, q in zip(a.path[:-2], b.path[:-2])):
                if pred in ('eq', 'ne'):
                    c = z3.And(*[zi(p) == zi(q) for p, q in zip(a.path, b.path)])
                    return z3.simplify(c if pred == 'eq' else z3.Not(c))
                raise Unsupported('pointer compare')
            if a.path[-1] == b.path[-1]:
                x, y = zi(a.path[-2]), zi(b.path[-2])
            else:
                es = self.elem_size(st, a)
                x, y = zi(a.path[-2]) * es + a.path[-1], zi(b.path[-2]) * es + b.path[-1]
        if self.cmps:
            self.cmps[-1].append((x, y))
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: x < y, 'ule': lambda: x <= y,
             'ugt': lambda: x > y, 'uge': lambda: x >= y}[pred]
        return z3.simplify(f())

    def trunc(self, a, w, st):
        if isinstance(a, PtrInt) or a is UNDEF:
            raise Unsupported('trunc of pointer/undef')
        c = a.const()
        if c is not None:
            return IV.c(w, c)
        if w == 1:
            if a.has_bv and not a.has_u and not a.has_s:
                return IV(1, b=z3.simplify(z3.Extract(0, 0, a.bv) == 1))
            if st is not None and self.implied(st, z3.And(zi(a.u) >= 0, zi(a.u) <= 1)):
                return IV(1, b=z3.simplify(zi(a.u) == 1))
            return IV(1, b=z3.simplify(zi(a.u) % 2 == 1))
        if a.has_bv and not a.has_u and not a.has_s:
            return IV(w, bv=z3.simplify(z3.Extract(w - 1, 0, a.bv)))
        M, H = 1 << w, 1 << (w - 1)
        r = IV(w)
        if a.has_s and st is not None and self.implied(st, z3.And(zi(a.s) >= -H, zi(a.s) < H)):
            r._s = a.s
        if r._s is None and a.has_u and st is not None and self.implied(st, zi(a.u) < M):
            r._u = a.u
        if r._s is None and r._u is None:
            x = a.u if a.has_u else a.s
            r._u = simp(zi(x) % M)
        return r

    # ------------------------------------------------------- instructions
    def step(self, st, regs, ins):
        """non-control, non-call instruction; may return list of (st, value)"""
        op, x = ins.op, ins.x
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            ty = ins.ty
            if ty.k == 'vec':
                raise Unsupported('vector integer op')
            a = self.val(regs, ty, x['a'], st)
            b = self.val(regs, ty, x['b'], st)
            return self.binop(st, op, a, b, ty.a, x['fl'])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            a = self.val(regs, ins.ty, x['a'], st)
            b = self.val(regs, ins.ty, x['b'], st) if x['b'] is not None else None
            return self.fop(st, op, a, b)
        if op == 'icmp':
            a = self.val(regs, ins.ty, x['a'], st)
            b = self.val(regs, ins.ty, x['b'], st)
            return IV(1, b=self.icmp(st, x['pred'], a, b))
        if op == 'fcmp':
            a = self.val(regs, ins.ty, x['a'], st)
            b = self.val(regs, ins.ty, x['b'], st)
            return IV(1, b=self.fcmp(st, x['pred'], a, b))
        if op in ('zext', 'sext'):
            a = self.val(regs, x['src'], x['a'], st)
            w = ins.ty.a
            if not isinstance(a, IV):
                raise Unsupported('ext of %r' % (a,))
            if a.const() is not None:
                return IV.c(w, a.u if op == 'zext' else a.s)
            if a.w == 1:
                if op == 'zext':
                    return IV(w, u=simp(z3.If(a.b, 1, 0)))
                return IV(w, s=simp(z3.If(a.b, -1, 0)))
            if a.has_bv and not a.has_u and not a.has_s:
                return IV(w, bv=z3.simplify((z3.ZeroExt if op == 'zext' else z3.SignExt)(w - a.w, a.bv)))
            if op == 'zext':
                return IV(w, u=self.to_u(st, a))
            return IV(w, s=self.to_s(st, a))
        if op == 'trunc':
            return self.trunc(self.val(regs, x['src'], x['a'], st), ins.ty.a, st)
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            a = self.val(regs, x.get('src', ins.ty), x['a'], st)
            if op == 'bitcast' and x['src'].key() != ins.ty.key():
                return self.bitcast(st, a, x['src'], ins.ty)
            return a
        if op == 'ptrtoint':
            return PtrInt(self.val(regs, x['src'], x['a'], st))
        if op == 'inttoptr':
            a = self.val(regs, x['src'], x['a'], st)
            if isinstance(a, PtrInt):
                return a.p
            if isinstance(a, IV) and a.const() == 0:
                return NULL
            raise Unsupported('inttoptr')
        if op in ('fpext', 'fptrunc'):
            a = self.val(regs, x['src'], x['a'], st)
            return FV(a.r, FLOATS[ins.ty.a])
        if op in ('sitofp', 'uitofp'):
            a = self.val(regs, x['src'], x['a'], st)
            e = a.s if op == 'sitofp' else a.u
            return FV(z3.simplify(z3.ToReal(zi(e))) if not isinstance(e, int) else z3.RealVal(e), FLOATS[ins.ty.a])
        if op in ('fptosi', 'fptoui'):
            a = self.val(regs, x['src'], x['a'], st)
            w = ins.ty.a
            r = a.r
            if op == 'fptoui':
                e = trunc_real(self, st, r)
                self.oblige(st, z3.And(r > -1, r < (1 << w)), 'float-to-unsigned in range')
                return IV(w, u=simp(e))
            e = trunc_real(self, st, r)
            self.oblige(st, z3.And(r > -(1 << (w - 1)) - 1, r < (1 << (w - 1))), 'float-to-int in range')
            return IV(w, s=simp(e))
        if op == 'alloca':
            if x['n'] is not None:
                n = self.val(regs, x['n'][0], x['n'][1], st)
                if n.const() != 1:
                    raise Unsupported('variable alloca')
            return Ptr(self.new_root(st, ins.res, kind='alloca'))
        if op == 'load':
            return self.load(st, self.val(regs, PTR, x['ptr'], st), ins.ty)
        if op == 'store':
            self.store(st, self.val(regs, PTR, x['ptr'], st), self.val(regs, ins.ty, x['a'], st), ins.ty)
            return None
        if op == 'gep':
            return self.gep(st, regs, ins)
        if op == 'select':
            c = self.val(regs, INT(1), x['c'], st)
            a = self.val(regs, ins.ty, x['a'], st)
            b = self.val(regs, ins.ty, x['b'], st)
            if c.const() is not None:
                return a if c.const() else b
            cb = c.b
            if z3.is_true(cb):
                return a
            if z3.is_false(cb):
                return b
            m = self.merge(st, cb, a, b)
            if m is not None:
                return m
            out = []
            for cond, v in ((cb, a), (z3.Not(cb), b)):
                if self.feasible(st, cond):
                    s2 = st.fork()
                    s2.assume(cond)
                    out.append((s2, v))
            return Multi(out)
        if op == 'extractvalue':
            a = self.val(regs, ins.ty, x['a'], st)
            for i in x['idx']:
                a = a.vals[i] if a is not UNDEF else UNDEF
            return a
        if op == 'insertvalue':
            a = self.val(regs, ins.ty, x['a'], st)
            v = self.val(regs, x['bt'], x['b'], st)
            return self.insval(a, v, x['idx'], ins.ty)
        if op == 'extractelement':
            a = self.val(regs, ins.ty, x['a'], st)
            i = self.val(regs, INT(64), x['b'], st).const()
            return a.vals[i]
        if op == 'insertelement':
            a = self.val(regs, ins.ty, x['a'], st)
            t = self.mod.resolve(ins.ty)
            v = self.val(regs, t.b, x['b'], st)
            i = self.val(regs, INT(64), x['c'], st).const()
            vals = [UNDEF] * t.a if a is UNDEF else list(a.vals)
            vals[i] = v
            return Agg(vals)
        raise Unsupported('instruction ' + op)

    def insval(self, a, v, idx, ty):
        if isinstance(a, ExcVal) or isinstance(v, ExcVal):
            return v if isinstance(v, ExcVal) else a
        ty = self.mod.resolve(ty)
        mem = self.members(ty)
        vals = [UNDEF] * len(mem) if a is UNDEF else list(a.vals)
        if len(idx) == 1:
            vals[idx[0]] = v
        else:
            vals[idx[0]] = self.insval(vals[idx[0]], v, idx[1:], mem[idx[0]][1])
        return Agg(vals)

    def bitcast(self, st, a, t1, t2):
        t1, t2 = self.mod.resolve(t1), self.mod.resolve(t2)
        if t1.k == t2.k == 'ptr':
            return a
        raise Unsupported('bitcast %r to %r' % (t1, t2))

    def merge(self, st, c, a, b):
        if isinstance(a, IV) and isinstance(b, IV) and a.w == b.w:
            if a.w == 1:
                return IV(1, b=z3.simplify(z3.If(c, a.b, b.b)))
            ob = lambda v: v.has_bv and not v.has_u and not v.has_s
            if ob(a) or ob(b):
                return IV(a.w, bv=z3.simplify(z3.If(c, a.bv, b.bv)))
            if a.has_u and b.has_u:
                return IV(a.w, u=simp(z3.If(c, zi(a.u), zi(b.u))))
            return IV(a.w, s=simp(z3.If(c, zi(a.s), zi(b.s))))
        if isinstance(a, FV) and isinstance(b, FV):
            return FV(z3.If(c, a.r, b.r), a.sz)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.root is not None and len(a.path) == len(b.path):
            p = []
            for i, (x, y) in enumerate(zip(a.path, b.path)):
                if same(x, y):
                    p.append(x)
                elif i % 2 == 1:
                    p.append(simp(z3.If(c, zi(x), zi(y))))
                else:
                    return None
            return Ptr(a.root, tuple(p))
        if isinstance(a, Agg) and isinstance(b, Agg):
            vs = [self.merge(st, c, x, y) for x, y in zip(a.vals, b.vals)]
            return None if any(v is None for v in vs) else Agg(vs)
        return None

    def fop(self, st, op, a, b):
        if isinstance(a, Agg):
            if b is None:
                return Agg([self.fop(st, op, p, None) for p in a.vals])
            return Agg([self.fop(st, op, p, q) for p, q in zip(a.vals, b.vals)])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op == 'fneg':
            return FV(z3.simplify(-a.r), a.sz)
        x, y = a.r, b.r
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            r = x * y
        elif op == 'fdiv':
            self.float_div(st, y)
            r = x / y
        else:
            r = FMOD(x, y)
        return FV(z3.simplify(r), a.sz)

    def float_div(self, st, y):
        y = z3.simplify(y)
        if z3.is_rational_value(y):
            return
        # division by zero is IEEE-defined; as reals it is unspecified: no obligation
        self.assumptions.add('floating-point division treated as real division (x/0 unspecified)')

    def isnan(self, r):
        if not self.nan:
            self.assumptions.add('floating-point values are finite reals')
            return z3.BoolVal(False)
        return is_nan(r)

    def fcmp(self, st, pred, a, b):
        if pred == 'true':
            return z3.BoolVal(True)
        if pred == 'false':
            return z3.BoolVal(False)
        if pred == 'uno':
            return self.isnan(a.r) if a.r.eq(b.r) else z3.simplify(z3.Or(self.isnan(a.r), self.isnan(b.r)))
        if pred == 'ord':
            return z3.simplify(z3.Not(self.isnan(a.r))) if a.r.eq(b.r) else z3.simplify(z3.Not(z3.Or(self.isnan(a.r), self.isnan(b.r))))
        x, y = a.r, b.r
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
             'lt': lambda: x < y, 'le': lambda: x <= y}[pred[1:]]
        return z3.simplify(f())

    def gep(self, st, regs, ins):
        ops = ins.x['ops']
        base = self.val(regs, ops[0][0], ops[0][1], st)
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r (%s)' % (base, ops[0][1]))
        cur = [(st, base)]
        t = ins.ty
        conc = 0
        for n, (it, iv) in enumerate(ops[1:]):
            i = self.val(regs, it, iv, st)
            if n == 0:
                scale = self.mod.sizeof(t)
            else:
                rt = self.mod.resolve(t)
                if rt.k == 'struct':
                    o, t = self.mod.layout(rt)[2][i.const()]
                    conc += o
                    continue
                scale = self.mod.sizeof(rt.b)
                t = rt.b
            if not isinstance(i, IV):
                raise Unsupported('gep index %r' % (i,))
            c = i.const()
            if c is not None:
                conc += scale * (c - (1 << i.w) if c >> (i.w - 1) else c)
                continue
            # size_t indices are usually small: use the unsigned value when in range
            if i.has_s:
                e = i.s
            else:
                e = self.to_s(st, i)
            new = []
            for s, p in cur:
                new += self.padd_sym(s, self.padd(s, p, conc), e, scale)
            conc = 0
            cur = new
        cur = [(s, self.padd(s, p, conc)) for s, p in cur]
        if len(cur) == 1 and cur[0][0] is st:
            return cur[0][1]
        return Multi(cur)

    # ------------------------------------------------------- calls
    def lookup_model(self, name):
        from cppnames import canon
        dem = self.mod.dem.get(name, name)
        key = dem
        if key in self._ctcache:
            return self._ctcache[key]
        r = None
        for rx, f in self.contracts.items():
            if re.search(rx, canon(dem)):
                r = ('contract', rx, f)
                break
        if r is None:
            for rx, f in self.models:
                if rx.search(dem):
                    r = ('model', rx.pattern, f)
                    break
        self._ctcache[key] = r
        return r

    def call(self, st, name, args, retty, ins=None, argtys=None):
        """-> list of outcomes ('ret', st, value) | ('throw', st, type)"""
        self.tick()
        name = self.mod.aliases.get(name, name)
        dem = self.mod.dem.get(name, name)
        m = self.lookup_model(name)
        if m is not None and not (m[0] == 'contract' and any(c == name for c in self.callstack)):
            kind, pat, f = m
            d = self.stats['contracts_used' if kind == 'contract' else 'models_used']
            d[short_dem(dem)] = d.get(short_dem(dem), 0) + 1
            info = CallInfo(dem, name, retty, argtys, ins)
            r = f(self, st, args, info)
            if r is not NotImplemented:
                return norm_outcomes(st, r)
        fn = self.mod.funcs.get(name)
        if fn is None:
            raise Unsupported('external function without contract: %s' % dem)
        if self.callstack.count(name) > 3 or len(self.callstack) > 60:
            raise Unsupported('recursion in %s' % dem)
        if dem.startswith('dp3::') or not re.match(r'^(std::|__gnu_cxx::|operator )', dem):
            self.stats['inlined'][short_dem(dem)] = self.stats['inlined'].get(short_dem(dem), 0) + 1
        return self.exec_fn(st, fn, args)

    def exec_fn(self, st, fn, args):
        fn.parse()
        if len(args) != len(fn.params):
            raise Unsupported('argument count of ' + fn.name)
        regs = {p[1]: a for p, a in zip(fn.params, args)}
        self.callstack.append(fn.name)
        try:
            outs = self.run(fn, st, regs, fn.entry, None, None)
        finally:
            self.callstack.pop()
        return outs

    def run(self, fn, st, regs, blk, prev, region):
        """region: None or (header, body set).  Outcomes: ('ret',st,v),
        ('throw',st,ty), ('back',st,regs,prev), ('exit',st,regs,target,prev)"""
        outs = []
        work = [(st, regs, blk, prev, -1)]
        while work:
            self.tick()
            st, regs, blk, prev, idx = work.pop()
            try:
                if idx == -1:
                    # entering a block
                    if region is not None:
                        if blk == region[0] and prev is not None and prev != '<start>':
                            outs.append(('back', st, regs, prev))
                            continue
                        if blk not in region[1]:
                            outs.append(('exit', st, regs, blk, prev))
                            continue
                    if blk in fn.loops and not (region is not None and blk == region[0]):
                        for o in self.loop(fn, st, regs, blk, prev):
                            if o[0] == 'exit':
                                work.append((o[1], o[2], o[3], o[4], -1))
                            else:
                                outs.append(o)
                        continue
                    b = fn.blocks[blk]
                    if prev != '<start>':
                        regs = self.phis(fn, st, regs, b, prev)
                    idx = 0
                    while idx < len(b.insts) and b.insts[idx].op == 'phi':
                        idx += 1
                b = fn.blocks[blk]
                fork = False
                while idx < len(b.insts):
                    ins = b.insts[idx]
                    op = ins.op
                    if op == 'br':
                        t = ins.x['targets']
                        if ins.x['cond'] is None:
                            work.append((st, regs, t[0], blk, -1))
                        else:
                            c = self.val(regs, INT(1), ins.x['cond'], st)
                            if c is UNDEF:
                                raise Unsupported('branch on undefined value')
                            cb = c.b
                            if z3.is_true(cb):
                                work.append((st, regs, t[0], blk, -1))
                            elif z3.is_false(cb):
                                work.append((st, regs, t[1], blk, -1))
                            else:
                                self.note_branch(fn, blk, t, region)
                                f1 = self.feasible(st, cb)
                                f2 = self.feasible(st, z3.Not(cb)) if f1 else True
                                if f1 and f2:
                                    s2 = st.fork()
                                    s2.assume(z3.simplify(z3.Not(cb)))
                                    work.append((s2, dict(regs), t[1], blk, -1))
                                    st.assume(cb)
                                    work.append((st, regs, t[0], blk, -1))
                                else:
                                    st.assume(cb if f1 else z3.simplify(z3.Not(cb)))
                                    work.append((st, regs, t[0] if f1 else t[1], blk, -1))
                        break
                    if op == 'switch':
                        v = self.val(regs, ins.ty, ins.x['a'], st)
                        c = v.const()
                        if c is not None:
                            tgt = ins.x['default']
                            for k, lab in ins.x['cases']:
                                if (k & ((1 << v.w) - 1)) == c:
                                    tgt = lab
                            work.append((st, regs, tgt, blk, -1))
                        else:
                            neg = []
                            grp = {}
                            for k, lab in ins.x['cases']:
                                cond = self.icmp(st, 'eq', v, IV.c(v.w, k))
                                grp.setdefault(lab, []).append(cond)
                                neg.append(z3.Not(cond))
                            for lab, cs in grp.items():
                                cc = z3.Or(*cs) if len(cs) > 1 else cs[0]
                                if self.feasible(st, cc):
                                    s2 = st.fork()
                                    s2.assume(z3.simplify(cc))
                                    work.append((s2, dict(regs), lab, blk, -1))
                            dn = z3.And(*neg)
                            if self.feasible(st, dn):
                                s2 = st.fork()
                                s2.assume(z3.simplify(dn))
                                work.append((s2, dict(regs), ins.x['default'], blk, -1))
                        break
                    if op == 'ret':
                        v = None if ins.x['a'] is None else self.val(regs, ins.ty, ins.x['a'], st)
                        outs.append(('ret', st, v))
                        break
                    if op == 'unreachable':
                        self.oblige(st, False, 'unreachable reached')
                        break
                    if op == 'resume':
                        v = self.val(regs, ins.ty, ins.x['a'], st)
                        if not isinstance(v, ExcVal):
                            raise Unsupported('resume')
                        outs.append(('throw', st, v.ty))
                        break
                    if op == 'landingpad':
                        regs[ins.res] = regs['<exc>']
                        idx += 1
                        continue
                    if op in ('call', 'invoke'):
                        res = self.do_call(fn, st, regs, ins)
                        nxt = []
                        for o in res:
                            if o[0] == 'throw':
                                tgt = None
                                if op == 'invoke':
                                    tgt = self.catcher(fn, ins, o)
                                if tgt is not None:
                                    r2 = dict(regs)
                                    r2.update(tgt[1])
                                    work.append((o[1], r2, tgt[0], blk, 0))
                                else:
                                    outs.append(o)
                            else:
                                nxt.append(o)
                        for n, o in enumerate(nxt):
                            r2 = dict(regs) if len(nxt) > 1 else regs
                            if ins.res is not None:
                                r2[ins.res] = o[2]
                            if op == 'invoke':
                                work.append((o[1], r2, ins.x['normal'], blk, -1))
                            else:
                                work.append((o[1], r2, blk, prev, idx + 1))
                        fork = True
                        break
                    r = self.step(st, regs, ins)
                    if isinstance(r, Multi):
                        for s2, v in r.items:
                            r2 = dict(regs)
                            r2[ins.res] = v
                            work.append((s2, r2, blk, prev, idx + 1))
                        fork = True
                        break
                    if ins.res is not None:
                        regs[ins.res] = r
                    idx += 1
            except Dead:
                continue
        return outs

    def note_branch(self, fn, blk, t, region):
        pass

    def catcher(self, fn, ins, o):
        """landing pad that may catch the exception"""
        lp = fn.blocks.get(ins.x['unwind'])
        if lp is None:
            return None
        text = lp.insts[0].text if lp.insts else ''
        i = 0
        while i < len(lp.insts) and lp.insts[i].op != 'landingpad':
            i += 1
        if i < len(lp.insts):
            text = lp.insts[i].text
        if 'catch' in text:
            raise Unsupported('catch clause in ' + fn.name)
        if self.cleanup:
            return ins.x['unwind'], {'<exc>': ExcVal(o[2])}
        return None

    def phis(self, fn, st, regs, b, prev):
        new = {}
        for ins in b.insts:
            if ins.op != 'phi':
                break
            for v, lab in ins.x['inc']:
                if lab == prev:
                    new[ins.res] = self.val(regs, ins.ty, v, st)
                    break
            else:
                raise Unsupported('phi without incoming edge')
        if new:
            regs = dict(regs)
            regs.update(new)
        return regs

    def do_call(self, fn, st, regs, ins):
        x = ins.x
        cal = x['callee']
        if cal[0] == 'glob':
            name = self.mod.aliases.get(cal[1], cal[1])
        else:
            f = self.val(regs, PTR, cal, st)
            if not isinstance(f, FnPtr):
                raise Unsupported('indirect call')
            name = f.name
        if name == '__cxa_allocate_exception':
            return [('throw', st, self.throw_type(fn, ins))]
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.assume')):
                return [('ret', st, None)]
        args = [self.val(regs, t, v, st) for t, v in x['args']]
        return self.call(st, name, args, ins.ty, ins, [t for t, _ in x['args']])

    def throw_type(self, fn, ins):
        # the typeinfo passed to the first __cxa_throw reachable from here
        start = None
        for bn, b in fn.blocks.items():
            if any(i is ins for i in b.insts):
                start = bn
                break
        seen, st = set(), [start]
        first = True
        while st:
            bn = st.pop()
            if bn in seen:
                continue
            seen.add(bn)
            act = not first
            for i in fn.blocks[bn].insts:
                if i is ins:
                    act = True
                    continue
                if act and i.op in ('call', 'invoke') and i.x['callee'] == ('glob', '__cxa_throw'):
                    g = i.x['args'][1][1]
                    return g[1] if g[0] == 'glob' else 'unknown'
            first = False
            st.extend(reversed(fn.blocks[bn].succs()))
        return 'unknown'

    # ------------------------------------------------------- loops
    def loop(self, fn, st, regs, h, prev):
        from loops import do_loop
        return do_loop(self, fn, st, regs, h, prev)


class CallInfo:
    def __init__(self, dem, name, retty, argtys, ins):
        self.dem, self.name, self.retty, self.argtys, self.ins = dem, name, retty, argtys, ins


class Multi:
    def __init__(self, items):
        self.items = items


class Dead(Exception):
    """the current path ends here"""


class SIV(IV):
    __slots__ = ('scaled',)

    def __init__(self, w, s):
        IV.__init__(self, w, s=s)
        if isinstance(s, int):
            self._u = s & ((1 << w) - 1)
        self.scaled = None


n_bytes = {}
FMOD = z3.Function('fmod', z3.RealSort(), z3.RealSort(), z3.RealSort())
ISNAN = z3.Function('isnan', z3.RealSort(), z3.BoolSort())


def is_nan(r):
    r = z3.simplify(r)
    if z3.is_rational_value(r):
        return z3.BoolVal(False)
    if z3.is_const(r) and r.decl().name() == 'NaN':
        return z3.BoolVal(True)
    return ISNAN(r)


def is_fresh_ranged(e):
    return False


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = zi(a), zi(b)
    if a.eq(b):
        return True
    d = simp(a - b)
    return d == 0 if isinstance(d, int) else False


def linear_mod(k, r):
    """k = r*q + c syntactically -> (q, c)"""
    k = z3.simplify(k, som=True)
    terms = k.children() if z3.is_add(k) else [k]
    q, c = z3.IntVal(0), 0
    for t in terms:
        if z3.is_int_value(t):
            c += t.as_long()
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % r == 0:
            f = z3.IntVal(t.arg(0).as_long() // r)
            for a in t.children()[1:]:
                f = f * a
            q = q + f
        else:
            return None
    return (simp(q + c // r), c % r)


def n_store_sub(el, idx, old, new):
    """store the changed leaves of new into el at idx (old = el[idx])"""
    if isinstance(el, Leaf):
        return Leaf(el.shape, z3.Store(el.t, zi(idx), new.t)) if new.t is not old.t else el
    if isinstance(el, VecN):
        ln = el.len if new.len is old.len else z3.Store(el.len, zi(idx), zi(new.len))
        return VecN(el.shape, ln, n_store_sub(el.el, idx, old.el, new.el))
    return StructN(el.shape, {o: n_store_sub(el.f[o], idx, old.f[o], new.f[o]) for o in el.f})


def val_size(v, ty, mod):
    if ty is not None:
        return mod.sizeof(ty)
    if isinstance(v, IV):
        return max(1, v.w // 8)
    if isinstance(v, FV):
        return v.sz
    if isinstance(v, (Ptr, FnPtr, PtrInt)):
        return 8
    return 0


def decimal_fraction(x, digits=None):
    from fractions import Fraction
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    return Fraction(repr(x))      # shortest decimal: the constant as written in the source


def trunc_real(E, st, r):
    r = z3.simplify(r)
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_TO_REAL:
        return r.arg(0)
    if E.implied(st, r >= 0):
        return z3.ToInt(r)
    if E.implied(st, r <= 0):
        return -z3.ToInt(-r)
    return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


def norm_outcomes(st, r):
    if isinstance(r, list):
        out = []
        for o in r:
            if o[0] in ('ret', 'throw'):
                out.append(o)
            else:
                out.append(('ret', o[0], o[1]))
        return out
    return [('ret', st, r)]


def shortname(n):
    m = re.match(r'_ZNK?(\d.*)', n)
    try:
        import subprocess
        return shortname_cache(n)
    except Exception:
        return n[:60]


_sn = {}


def shortname_cache(n):
    if n not in _sn:
        import subprocess
        d = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
        _sn[n] = short_dem(d)
    return _sn[n]


def short_dem(d):
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    d = re.sub(r', std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>', '', d)
    d = re.sub(r'\(.*', '', d) if len(d) > 100 else d
    return d[:110]


def cvc5_unsat(z3solver, timeout_ms):
    """try cvc5 on the same assertions"""
    try:
        import cvc5
    except ImportError:
        return False
    txt = z3solver.to_smt2()
    import subprocess
    import shutil
    exe = shutil.which('cvc5')
    if exe is None:
        return False
    try:
        p = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' % timeout_ms, '--arrays-exp', '-'], input='(set-logic ALL)\n' + txt,
                           text=True, capture_output=True, timeout=timeout_ms / 1000 + 5)
    except subprocess.TimeoutExpired:
        return False
    return p.stdout.strip().split('\n')[0] == 'unsat'
