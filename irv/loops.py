"""Loop handling: exact unrolling of concretely decided loops, otherwise
Houdini-filtered inductive invariants."""
import re
import z3
from irparse import Unsupported, INT, FLOATS
from values import *
import values as V


class LV:
    """a loop-varying integer quantity (phi, pointer index, memory cell, length)"""

    def __init__(self, name, get, kind):
        self.name, self.get, self.kind = name, get, kind


class View:
    def __init__(self, ctx, st, regs, it):
        self.ctx, self.st, self.regs, self.it = ctx, st, regs, it

    def v(self, name):
        return self.ctx.lv[name].get(self.st, self.regs)

    def arr(self, name):
        return self.ctx.arrs[name](self.st, self.regs)


class LoopCtx:
    pass


def const_no(x):
    n = x.decl().name()
    m = re.search(r'!(\d+)$', n)
    return int(m.group(1)) if m else -1


def invariant_term(e, start):
    from engine import consts_in
    if isinstance(e, int):
        return True
    return all(const_no(c) < start for c in consts_in(e).values())


def path_key(path, start):
    """abstract path: variant indices become '*'"""
    out = []
    for i, p in enumerate(path):
        if i % 2 == 1 and not invariant_term(p, start):
            out.append('*')
        else:
            out.append(p)
    return tuple(out)


def key_of(root, pk, what):
    return (root, tuple('*' if isinstance(p, str) else p if isinstance(p, int) else ('t', zi(p).get_id()) for p in pk), what)


def phi_rep(fn, h, body, name):
    for b in body:
        for ins in fn.blocks[b].insts:
            x = ins.x
            if ins.op == 'icmp' and ('reg', name) in (x['a'], x['b']):
                if x['pred'][0] == 's':
                    return 's'
                if x['pred'][0] == 'u':
                    return 'u'
            if ins.op in ('add', 'sub', 'mul') and ('reg', name) in (x['a'], x['b']):
                if 'nsw' in x['fl'] and 'nuw' not in x['fl']:
                    return 's'
            if ins.op in ('sext', 'sitofp') and x['a'] == ('reg', name):
                return 's'
    return 'u'


def do_loop(E, fn, st, regs, h, prev):
    body = fn.loops[h]
    regs = E.phis(fn, st, regs, fn.blocks[h], prev)
    r = try_unroll(E, fn, st, regs, h, body)
    if r is not None:
        return r
    return invariant_loop(E, fn, st, regs, h, body)


def exiting_concrete(E, fn, body, log):
    for (f, b, concrete) in log:
        if f is fn and b in body and concrete:
            t = fn.blocks[b].insts[-1]
            if t.op == 'br' and any(x not in body for x in t.x['targets']):
                return True
    return False


def try_unroll(E, fn, st, regs, h, body):
    region = (h, body)
    if not exit_decided(E, fn, body, st, regs, h):
        return None
    saved = E.obls
    saved_w = len(E.writes[-1]) if E.writes else 0
    E.obls = list(saved)
    cur = [(st.fork(), regs)]
    outs = []
    ok = True
    for it in range(E.max_unroll + 1):
        nxt = []
        for s, r in cur:
            log = E.branchlog = []
            res = E.run(fn, s, dict(r), h, '<start>', region)
            backs = [o for o in res if o[0] == 'back']
            rest = [o for o in res if o[0] != 'back']
            if backs and it == E.max_unroll:
                ok = False
                break
            if backs and rest and not exit_decided(E, fn, body, s, r, h):
                ok = False
                break
            if backs and not rest and it == 0 and not exit_decided(E, fn, body, s, r, h):
                # cannot tell: e.g. while (true) with symbolic exits folded by pc
                ok = False
                break
            outs += rest
            for o in backs:
                nxt.append((o[1], E.phis(fn, o[1], o[2], fn.blocks[h], o[3])))
            if len(nxt) > 64:
                ok = False
                break
        if not ok:
            break
        cur = nxt
        if not cur:
            break
    if not ok:
        E.obls = saved
        if E.writes:
            del E.writes[-1][saved_w:]
        return None
    E.stats['unrolled'] += 1
    return outs


def exit_decided(E, fn, body, s, r, h):
    """some exiting branch of the loop is decided by constants only (the
    syntactic loop counter): probe the exiting compares under the phi values"""
    for b in body:
        t = fn.blocks[b].insts[-1]
        if t.op != 'br' or t.x['cond'] is None or not any(x not in body for x in t.x['targets']):
            continue
        c = t.x['cond']
        if c[0] != 'reg':
            continue
        if const_slice(E, fn, body, c[1], r, s, 0):
            return True
    return False


def const_slice(E, fn, body, name, regs, st, depth):
    """does register `name` depend only on values that are concrete now?"""
    d = defs_of(fn)
    ins = d.get(name)
    if ins is None or ins[0] not in body:
        v = regs.get(name)
        return isinstance(v, IV) and v.const() is not None or (isinstance(v, Ptr) and all(isinstance(p, int) for p in v.path))
    i = ins[1]
    if i.op == 'phi':
        v = regs.get(name)
        if ins[0] not in fn.loops:
            return False
        return isinstance(v, IV) and v.const() is not None or (isinstance(v, Ptr) and all(isinstance(p, int) for p in v.path))
    if depth > 6:
        return False
    if i.op in ('icmp', 'add', 'sub', 'mul'):
        ops = [i.x['a'], i.x['b']]
    elif i.op in ('zext', 'sext', 'trunc'):
        ops = [i.x['a']]
    elif i.op == 'gep':
        ops = [v for _, v in i.x['ops']]
    elif i.op == 'load':
        p = i.x['ptr']
        if p[0] == 'glob':
            return False
        if p[0] == 'reg':
            v = regs.get(p[1])
            if isinstance(v, Ptr) and v.root in st.mem and len(v.path) == 1:
                c = st.mem[v.root].cells.get(v.path[0])
                if isinstance(c, IV):
                    return c.const() is not None
                if isinstance(c, Ptr):
                    return all(isinstance(q, int) for q in c.path)
        return False
    elif i.op in ('call', 'invoke'):
        cal = i.x['callee']
        if cal[0] != 'glob':
            return False
        dem = E.mod.dem.get(cal[1], cal[1])
        if re.search(r'operator(!=|==|<)|std::array<.*>::(size|begin|end)|initializer_list<.*>::(begin|end|size)', dem):
            ops = [v for _, v in i.x['args']]
        else:
            return False
    else:
        return False
    for o in ops:
        if o[0] == 'reg':
            v = regs.get(o[1])
            dd = d.get(o[1])
            if dd is not None and dd[1].op == 'alloca':
                # by-reference operand: concrete if the cell is
                if isinstance(v, Ptr) and v.root in st.mem:
                    c = st.mem[v.root].cells.get(0)
                    if isinstance(c, Ptr) and all(isinstance(q, int) for q in c.path):
                        continue
                    if isinstance(c, IV) and c.const() is not None:
                        continue
                return False
            if not const_slice(E, fn, body, o[1], regs, st, depth + 1):
                return False
    return True


def defs_of(fn):
    if not hasattr(fn, '_defs'):
        fn._defs = {}
        for bn, b in fn.blocks.items():
            for i in b.insts:
                if i.res is not None:
                    fn._defs[i.res] = (bn, i)
    return fn._defs


# ---------------------------------------------------------------- invariants
def havoc_phi(E, fn, h, body, ins, v0, facts):
    nm = 'h_' + ins.res
    t = E.mod.resolve(ins.ty)
    if v0 is UNDEF:
        if t.k == 'int':
            v0 = IV.c(t.a, 0)
        elif t.k == 'fp':
            return FV(fresh_real(nm), FLOATS[t.a])
        else:
            return UNDEF
    if isinstance(v0, IV):
        if v0.w == 1:
            return IV(1, b=fresh(nm, z3.BoolSort()))
        if v0.has_bv and not v0.has_u and not v0.has_s:
            return IV(v0.w, bv=fresh(nm, z3.BitVecSort(v0.w)))
        x = fresh_int(nm)
        if phi_rep(fn, h, body, ins.res) == 's':
            facts.append(z3.And(x >= -(1 << (v0.w - 1)), x < (1 << (v0.w - 1))))
            return IV(v0.w, s=x)
        facts.append(z3.And(x >= 0, x < (1 << v0.w)))
        return IV(v0.w, u=x)
    if isinstance(v0, FV):
        return FV(fresh_real(nm), v0.sz)
    if isinstance(v0, Ptr):
        if v0.root is None or len(v0.path) == 1:
            return v0
        return Ptr(v0.root, v0.path[:-2] + (fresh_int(nm), v0.path[-1]))
    if isinstance(v0, FnPtr):
        return v0
    raise Unsupported('loop-carried value %r' % (v0,))


def hv(n, path, what, k, start):
    if not path:
        return map_node(lambda t: fresh('hm', zi(t).sort()), n) if what != 'len' else n
    idx, off = path[0], path[1]
    if k == 0 and not isinstance(idx, str):
        from engine import n_store_sub
        el = n_sel(n.el, idx)
        new = hv_field(el, off, path[2:], what, 0, start)
        return VecN(n.shape, n.len, n_store_sub(n.el, idx, el, new))
    return VecN(n.shape, n.len, hv_field(n.el, off, path[2:], what, k + 1, start))


def hv_field(n, off, rest, what, k, start):
    if isinstance(n, StructN):
        if off in n.f and not isinstance(n.f[off], StructN):
            d = dict(n.f)
            d[off] = hv(d[off], rest, what, k, start)
            return StructN(n.shape, d)
        for o in sorted(n.f, reverse=True):
            if o <= off and isinstance(n.f[o], StructN):
                d = dict(n.f)
                d[o] = hv_field(d[o], off - o, rest, what, k, start)
                return StructN(n.shape, d)
        raise Unsupported('havoc field')
    return hv(n, rest, what, k, start)


def all_lens(n, out, k=0):
    if isinstance(n, VecN):
        if k == 0:
            out.append(n.len)
        all_lens(n.el, out, k + 1)
    elif isinstance(n, StructN):
        for x in n.f.values():
            all_lens(x, out, k)


def shape_terms(v):
    """integer terms of a value, for stepping checks"""
    if isinstance(v, IV) and v.w > 1:
        if v.has_bv and not v.has_u and not v.has_s:
            return None
        return True
    return None


def invariant_loop(E, fn, st, regs, h, body):
    E.stats['loops'] += 1
    hb = fn.blocks[h]
    phis = [i for i in hb.insts if i.op == 'phi']
    start = next(V._ctr)
    region = (h, body)
    W = {}     # key -> (root, path key, what)
    entry_roots = set(st.mem)
    ckey = (tuple(E.callstack), h, E.visit.get((tuple(E.callstack), h), 0)) if hasattr(E, 'visit') else (tuple(E.callstack), h, 0)
    cache = E.loop_cache.setdefault(ckey, dict(W={}, dead=set()))
    W.update({k: v for k, v in cache['W'].items() if v[0] in st.mem})
    bounds = {}

    def havoc():
        s = st.fork()
        facts = []
        r = dict(regs)
        for p in phis:
            r[p.res] = havoc_phi(E, fn, h, body, p, regs[p.res], facts)
        for root, pk, what in W.values():
            o = E.get_root(s, root).copy()
            c = o.cells.get(pk[0])
            if len(pk) == 1:
                if c is None:
                    pass
                elif isinstance(c, VecN):
                    n = map_node(lambda t: fresh('hn', zi(t).sort()), c)
                    o.cells[pk[0]] = n
                elif isinstance(c, IV):
                    if c.w == 1:
                        o.cells[pk[0]] = IV(1, b=fresh('hc', z3.BoolSort()))
                    elif c.has_bv and not c.has_u and not c.has_s:
                        o.cells[pk[0]] = IV(c.w, bv=fresh('hc', z3.BitVecSort(c.w)))
                    else:
                        x = fresh_int('hc')
                        if cell_rep(cache, root, pk) == 's':
                            facts.append(z3.And(x >= -(1 << (c.w - 1)), x < (1 << (c.w - 1))))
                            o.cells[pk[0]] = IV(c.w, s=x)
                        else:
                            facts.append(z3.And(x >= 0, x < (1 << c.w)))
                            o.cells[pk[0]] = IV(c.w, u=x)
                elif isinstance(c, FV):
                    o.cells[pk[0]] = FV(fresh_real('hc'), c.sz)
                elif isinstance(c, Ptr):
                    if c.root is not None and len(c.path) > 1:
                        o.cells[pk[0]] = Ptr(c.root, c.path[:-2] + (fresh_int('hp'), c.path[-1]))
                    else:
                        cache.setdefault('ptrfix', {})[(root, pk)] = c
                elif c is UNDEF:
                    pass
                else:
                    raise Unsupported('loop-carried cell %r' % (c,))
            else:
                if c is None:
                    continue
                o.cells[pk[0]] = hv(c, pk[1:], what, 0, start)
            s.mem[root] = o
        for root, pk, what in W.values():
            c = s.mem[root].cells.get(pk[0])
            ls = []
            if c is not None and isinstance(c, VecN):
                all_lens(c, ls)
                for l in ls:
                    facts.append(zi(l) >= 0)
        it = fresh_int('it')
        facts.append(it >= 0)
        for f in facts:
            s.assume(f)
        return s, r, it

    def back_ok(o):
        """pointer phis / cells must stay in the object they entered with"""
        for p in phis:
            v0 = regs[p.res]
            if isinstance(v0, Ptr):
                nv = phi_in(o, p)
                if not isinstance(nv, Ptr) or nv.root != v0.root or len(nv.path) != len(v0.path):
                    raise Unsupported('loop-carried pointer changes object')
                from engine import same
                pre = slice(0, -2) if len(v0.path) > 1 else slice(0, 1)
                if not all(same(a, b) for a, b in zip(nv.path[pre], v0.path[pre])) or nv.path[-1] != v0.path[-1]:
                    raise Unsupported('loop-carried pointer changes container')
            elif isinstance(v0, FnPtr):
                nv = phi_in(o, p)
                if not isinstance(nv, FnPtr) or nv.name != v0.name:
                    raise Unsupported('loop-carried function pointer')
        for (root, pk, what) in W.values():
            c0 = st.mem[root].cells.get(pk[0]) if root in st.mem else None
            if len(pk) == 1 and isinstance(c0, Ptr):
                c1 = o[1].mem[root].cells.get(pk[0])
                if not isinstance(c1, Ptr) or c1.root != c0.root or len(c1.path) != len(c0.path):
                    raise Unsupported('loop-carried pointer cell changes object')
                from engine import same
                if len(c0.path) == 1:
                    if c1.path != c0.path:
                        raise Unsupported('loop-carried pointer cell')
                elif not all(same(a, b) for a, b in zip(c1.path[:-2], c0.path[:-2])) or c1.path[-1] != c0.path[-1]:
                    raise Unsupported('loop-carried pointer cell')

    def phi_in(o, p):
        for v, lab in p.x['inc']:
            if lab == o[3]:
                return E.val(o[2], p.ty, v, o[1])
        raise Unsupported('phi')

    def run_body(s, r):
        E.writes.append([])
        E.cmps.append([])
        try:
            outs = E.run(fn, s.fork(), dict(r), h, '<start>', region)
        finally:
            wr = E.writes.pop()
            cm = E.cmps.pop()
        return outs, wr, cm

    def absorb(wr):
        grew = False
        for root, path, what in wr:
            if root not in entry_roots:
                continue
            pk = path_key(path, start)
            # container writes under an enclosing write are fine
            k = key_of(root, pk, what)
            if k not in W:
                W[k] = (root, pk, what)
                if all(isinstance(x, (int, str)) for x in pk):
                    cache['W'][k] = W[k]
                grew = True
        return grew

    # ---- discovery: modified memory, bounds, steps
    E.disc = getattr(E, 'disc', 0) + 1
    saved = E.obls
    try:
        n = 0
        while True:
            n += 1
            if n > 12:
                raise Unsupported('loop write set does not stabilise')
            E.obls = []
            s, r, it = havoc()
            outs, wr, cm = run_body(s, r)
            if not absorb(wr):
                break
    finally:
        E.disc -= 1
        E.obls = saved
    prop_writes = list(wr)
    backs = [o for o in outs if o[0] == 'back']
    for o in backs:
        back_ok(o)
    # outer loops must know what this loop writes
    if E.writes:
        E.writes[-1].extend(wr)
    if E.cmps:
        E.cmps[-1].extend(cm)
    if E.disc:
        # inside an outer discovery run: no invariants, keep exits
        return [o for o in outs if o[0] != 'back']

    ctx = LoopCtx()
    ctx.E, ctx.fn, ctx.h, ctx.body, ctx.start = E, fn, h, body, start
    ctx.fname = E.mod.dem.get(fn.name, fn.name)
    ctx.lv, ctx.arrs, ctx.reals, ctx.elems = {}, {}, {}, {}
    build_vars(E, ctx, st, regs, phis, W, s, r)
    ctx.entry = View(ctx, st, regs, z3.IntVal(0))
    # constant steps
    hview = View(ctx, s, r, it)
    steps = {}
    for nme, lv in ctx.lv.items():
        cur = lv.get(s, r)
        ds = set()
        for o in backs:
            r2 = dict(o[2])
            for p in phis:
                r2[p.res] = phi_in(o, p)
            nv = lv.get(o[1], r2)
            if nv is None or cur is None:
                ds.add(None)
                continue
            d = simp(zi(nv) - zi(cur))
            ds.add(d if isinstance(d, int) else None)
        if len(ds) == 1 and None not in ds:
            steps[nme] = ds.pop()
    ctx.steps = steps
    # bounds: loop-invariant comparison operands
    bnds = {}
    for x, y in cm:
        for t in (x, y):
            for b in inv_parts(t, start):
                bnds[b.get_id()] = b
    for nme, lv in ctx.lv.items():
        e0 = lv.get(st, regs)
        if e0 is not None:
            e0 = zi(e0)
            bnds.setdefault(e0.get_id(), e0)
    ctx.bounds = list(bnds.values())[:40]
    cands = generic_candidates(ctx)
    for t in E.templates:
        cands += t(ctx)
    # dedupe by label, drop those known dead
    seen, cs = set(), []
    for lab, f in cands:
        if lab in seen or lab in cache['dead']:
            continue
        seen.add(lab)
        cs.append((lab, f))
    # ---- initiation
    live = filter_cands(E, cs, [(st, ctx.entry)], cache)
    # ---- consecution
    E.in_houdini += 1
    rounds = 0
    try:
        while True:
            rounds += 1
            E.stats['rounds'] += 1
            E.obls = []
            E.visit = getattr(E, 'visit', {})
            s, r, it = havoc()
            view = View(ctx, s, r, it)
            for lab, f in live:
                g = f(view)
                if g is not None:
                    s.assume(g)
            hs = (s.fork(), r, it)
            outs, wr, cm = run_body(s, r)
            if absorb(wr):
                build_vars(E, ctx, st, regs, phis, W, s, r)
                continue
            backs = [o for o in outs if o[0] == 'back']
            views = []
            for o in backs:
                back_ok(o)
                r2 = dict(o[2])
                for p in phis:
                    r2[p.res] = phi_in(o, p)
                views.append((o[1], View(ctx, o[1], r2, it + 1)))
            new = filter_cands(E, live, views, cache)
            if len(new) == len(live):
                break
            live = new
    finally:
        E.in_houdini -= 1
    body_obls = E.obls
    E.obls = saved + body_obls
    E.stats['invariants'] += len(live)
    if E.debug:
        print('LOOP', ctx.fname[:70], h, 'rounds', rounds, 'cands', len(cs), 'live', [l for l, _ in live])
    # termination measure
    if E.check_term:
        ok = termination(E, ctx, hs, views)
        E.term.append((ctx.fname, h, ok))
    return [o for o in outs if o[0] != 'back']


def cell_rep(cache, root, pk):
    return 'u'


def inv_parts(t, start):
    """loop-invariant terms usable as bounds: the term itself or the invariant
    summands of it"""
    t = zi(t)
    if invariant_term(t, start):
        return [t]
    out = []
    if z3.is_add(t):
        inv = [a for a in t.children() if invariant_term(a, start)]
        if inv:
            out.append(-z3.Sum(inv) if False else z3.simplify(z3.Sum(inv)))
            out.append(z3.simplify(-z3.Sum(inv)))
    return out


def int_of(v):
    if isinstance(v, IV) and v.w > 1:
        if v.has_bv and not v.has_u and not v.has_s:
            return None
        return v
    return None


def build_vars(E, ctx, st, regs, phis, W, hs, hr):
    for p in phis:
        v0 = regs[p.res]
        hvv = hr[p.res]
        nm = p.res
        if isinstance(hvv, IV) and hvv.w > 1 and (hvv.has_u or hvv.has_s):
            rep = 's' if hvv.has_s and not hvv.has_u else 'u'
            ctx.lv[nm] = LV(nm, (lambda n, rep: lambda s, r: (lambda v: None if not isinstance(v, IV) else v.s if rep == 's' else v.u)(r[n]))(nm, rep), 'int')
        elif isinstance(hvv, Ptr) and hvv.root is not None and len(hvv.path) > 1:
            ctx.lv[nm] = LV(nm, (lambda n: lambda s, r: r[n].path[-2])(nm), 'ptr')
        elif isinstance(hvv, FV):
            ctx.reals[nm] = (lambda n: lambda s, r: r[n].r)(nm)
    for root, pk, what in W.values():
        o = st.mem.get(root)
        if o is None:
            continue
        c = o.cells.get(pk[0])
        base = '%s+%s' % (root, pk[0])
        if len(pk) == 1 and isinstance(c, IV) and c.w > 1 and not (c.has_bv and not c.has_u and not c.has_s):
            ctx.lv[base] = LV(base, (lambda ro, of: lambda s, r: (lambda v: v.u if isinstance(v, IV) else None)(s.mem[ro].cells.get(of)))(root, pk[0]), 'cell')
        elif len(pk) == 1 and isinstance(c, Ptr) and c.root is not None and len(c.path) > 1:
            ctx.lv[base] = LV(base, (lambda ro, of: lambda s, r: (lambda v: v.path[-2] if isinstance(v, Ptr) and len(v.path) > 1 else None)(s.mem[ro].cells.get(of)))(root, pk[0]), 'ptr')
        elif len(pk) == 1 and isinstance(c, FV):
            ctx.reals[base] = (lambda ro, of: lambda s, r: s.mem[ro].cells[of].r)(root, pk[0])
        elif isinstance(c, VecN):
            # walk to the deepest invariant container
            pre = [pk[0]]
            i = 1
            while i < len(pk) and not isinstance(pk[i], str):
                pre += [pk[i], pk[i + 1]]
                i += 2
            pre = tuple(pre)
            get = node_getter(root, pre)
            n0 = get(E, st)
            if i >= len(pk) and len(pk) > 1 and isinstance(n0, Leaf):
                # one element at a loop-invariant index
                ctx.elems.setdefault((base, zi(pre[1]).get_id(), pre[-1]), (zi(pre[1]), (lambda g: lambda s, r: g(E, s).t)(get)))
            nm = base + ''.join('[%s]%s' % (pre[j], pre[j + 1]) for j in range(1, len(pre), 2))
            if isinstance(n0, VecN):
                if what == 'node':
                    ctx.lv[nm + '.len'] = LV(nm + '.len', (lambda g: lambda s, r: (lambda n: n.len if isinstance(n, VecN) else None)(g(E, s)))(get), 'len')
                for path, sub in leaf_paths(n0.el):
                    ctx.arrs[nm + '.' + path] = (lambda g, sp: lambda s, r: leaf_at(g(E, s), sp))(get, path)


def node_getter(root, pre):
    def get(E, s):
        n = s.mem[root].cells.get(pre[0])
        for j in range(1, len(pre), 2):
            n = E.field(n_sel(n.el, pre[j]), pre[j + 1])
        return n
    return get


def leaf_paths(n, p=''):
    if isinstance(n, Leaf):
        return [(p + 'v', n)]
    if isinstance(n, VecN):
        return [(p + 'L', n)] + leaf_paths(n.el, p + 'e')
    out = []
    for o in sorted(n.f):
        out += leaf_paths(n.f[o], p + 'f%d' % o)
    return out


def leaf_at(vec, path):
    if not isinstance(vec, VecN):
        return None
    n = vec.el
    for tok in re.findall(r'v|L|e|f\d+', path):
        if tok == 'v':
            return n.t
        if tok == 'L':
            return n.len
        if tok == 'e':
            n = n.el
        else:
            n = n.f[int(tok[1:])]
    return None


def generic_candidates(ctx):
    out = []
    names = list(ctx.lv)
    E = ctx.E
    ent = {n: ctx.lv[n].get(ctx.entry.st, ctx.entry.regs) for n in names}
    names = [n for n in names if ent[n] is not None]
    for n in names:
        e0 = zi(ent[n])
        if n in ctx.steps:
            c = ctx.steps[n]
            out.append(('%s=e+%d*it' % (n, c), (lambda n, e0, c: lambda v: (lambda x: None if x is None else zi(x) == e0 + c * v.it)(v.v(n)))(n, e0, c)))
        out.append((n + '>=e', (lambda n, e0: lambda v: zi(v.v(n)) >= e0)(n, e0)))
        out.append((n + '<=e', (lambda n, e0: lambda v: zi(v.v(n)) <= e0)(n, e0)))
        for j, b in enumerate(ctx.bounds):
            if b.eq(e0):
                continue
            out.append(('%s<=b:%s' % (n, bkey(b)), (lambda n, b: lambda v: zi(v.v(n)) <= b)(n, b)))
            out.append(('%s>=b:%s' % (n, bkey(b)), (lambda n, b: lambda v: zi(v.v(n)) >= b)(n, b)))
            out.append(('%s<b:%s' % (n, bkey(b)), (lambda n, b: lambda v: zi(v.v(n)) < b)(n, b)))
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if a in ctx.steps and b in ctx.steps:
                continue
            out.append(('%s<=%s' % (a, b), (lambda a, b: lambda v: zi(v.v(a)) <= zi(v.v(b)))(a, b)))
            out.append(('%s>=%s' % (a, b), (lambda a, b: lambda v: zi(v.v(a)) >= zi(v.v(b)))(a, b)))
    if len(names) > 1:
        for a in names:
            if a not in ctx.steps:
                out.append((a + '>=e+it', (lambda a: lambda v: zi(v.v(a)) >= zi(ent[a]) + v.it)(a)))
                out.append((a + '<=e+it', (lambda a: lambda v: zi(v.v(a)) <= zi(ent[a]) + v.it)(a)))
    # frames of arrays
    idxs = [n for n in names]
    k = z3.Int('k!f')
    for an, g in (ctx.arrs.items() if E.frames else ()):
        a0 = g(ctx.entry.st, ctx.entry.regs)
        if a0 is None or not z3.is_array(a0):
            continue
        for n in idxs:
            e0 = zi(ent[n])
            out.append(('frame %s k>=%s' % (an, n), (lambda g, a0, n: lambda v: z3.ForAll([k], z3.Implies(k >= zi(v.v(n)), sel(v, g, k) == z3.Select(a0, k))))(g, a0, n)))
        out.append(('frame %s all' % an, (lambda g, a0: lambda v: g(v.st, v.regs) == a0)(g, a0)))
        for n in idxs[:6]:
            e0 = zi(ent[n])
            out.append(('frame %s k<e:%s' % (an, n), (lambda g, a0, e0: lambda v: z3.ForAll([k], z3.Implies(k < e0, sel(v, g, k) == z3.Select(a0, k))))(g, a0, e0)))
            out.append(('frame %s k<%s' % (an, n), (lambda g, a0, n: lambda v: z3.ForAll([k], z3.Implies(k < zi(v.v(n)), sel(v, g, k) == z3.Select(a0, k))))(g, a0, n)))
    return out


def sel(v, g, k):
    return z3.Select(g(v.st, v.regs), k)


def bkey(b):
    return re.sub(r'\s+', ' ', str(b))[:60] + '#%d' % (b.hash() & 0xffff)


def real_goal(g):
    """a conjunction of equalities of reals"""
    if z3.is_and(g):
        return any(real_goal(c) for c in g.children())
    return z3.is_eq(g) and z3.is_real(g.arg(0))


def filter_cands(E, cands, views, cache):
    """keep the candidates proved in every (state, view)"""
    from engine import has_quant
    live = list(cands)
    for st, view in views:
        goals = []
        for lab, f in live:
            g = f(view)
            if isinstance(g, bool):
                g = z3.BoolVal(g)
            goals.append((lab, f, g))
        keep = []
        qf = [(l, f, g) for l, f, g in goals if g is not None and not has_quant(g)]
        # joint elimination with models
        hard = [(l, f, g) for l, f, g in qf if l.startswith('T:') and real_goal(g)]
        hl = set(l for l, _, _ in hard)
        rest = [x for x in qf if x[0] not in hl]
        while rest:
            r, m, be = E.prove(st.pc, [], z3.And(*[g for _, _, g in rest]) if len(rest) > 1 else rest[0][2], 1500, split=False)
            if r == 'proved':
                break
            if m is None:
                nxt = []
                for l, f, g in rest:
                    if E.prove(st.pc, st.qpc, g, 1500)[0] == 'proved':
                        nxt.append((l, f, g))
                rest = nxt
                break
            nxt = [(l, f, g) for l, f, g in rest if not z3.is_false(m.eval(g, model_completion=True))]
            if len(nxt) == len(rest):
                nxt = [(l, f, g) for l, f, g in rest if E.prove(st.pc, [], g, 1500)[0] == 'proved']
                rest = nxt
                break
            rest = nxt
        ok = set(l for l, _, _ in rest)
        for l, f, g in hard:
            if E.prove(st.pc, st.qpc, g, 4000, full=True)[0] == 'proved':
                ok.add(l)
        # those dropped may still follow from quantified facts
        dropped = [(l, f, g) for l, f, g in qf if l not in ok and l not in hl]
        if st.qpc:
            for l, f, g in dropped:
                if (l.startswith('T:') or '<' not in l and '>' not in l) and E.prove(st.pc, st.qpc, g, 2000)[0] == 'proved':
                    ok.add(l)
        for l, f, g in goals:
            if g is not None and has_quant(g):
                if E.prove(st.pc, st.qpc, g, 4000 if l.startswith('T:') else 1500, full=l.startswith('T:'))[0] == 'proved':
                    ok.add(l)
        for l, f, g in goals:
            if g is None:
                ok.discard(l)
        for l, f in live:
            if l not in ok:
                cache['dead'].add(l)
                if E.debug and l.startswith('T:'):
                    print('   DEAD', l)
        live = [(l, f) for l, f in live if l in ok]
    return live


def termination(E, ctx, hs, views):
    s, r, it = hs
    for n, lv in ctx.lv.items():
        cur = lv.get(s, r)
        if cur is None:
            continue
        cur = zi(cur)
        for b in ctx.bounds + [z3.IntVal(0)]:
            for up in (True, False):
                ok = True
                for st, v in views:
                    nv = zi(lv.get(v.st, v.regs))
                    g = z3.And(nv >= cur + 1, nv <= b) if up else z3.And(nv <= cur - 1, nv >= b)
                    if E.check(st.pc, [z3.Not(g)]) != 'unsat':
                        ok = False
                        break
                if ok:
                    return True
    return False
