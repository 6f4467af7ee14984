"""Textual LLVM IR (LLVM 18, opaque pointers) parser for the irv verifier.

Only the part of the language that clang emits for C++ translation units at
-O1 -disable-llvm-passes followed by sroa/simplifycfg is supported; anything
else raises Unsupported, which the driver reports as "out of reach".
"""
import re
import subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return {'int': 'i%s' % self.a, 'arr': '[%s x %r]' % (self.a, self.b)}.get(
            self.k, '%s:%s' % (self.k, self.a) if self.a is not None else self.k)

    def key(self):
        return repr(self)


VOID, PTR, LABEL, META = Ty('void'), Ty('ptr'), Ty('label'), Ty('meta')
_INT = {}


def INT(w):
    if w not in _INT:
        _INT[w] = Ty('int', w)
    return _INT[w]


FLOATS = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}

_name_re = re.compile(r'[%@]("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
_ws = re.compile(r'\s*')
_attr_re = re.compile(
    r'\s*(noundef|nonnull|noalias|nocapture|readonly|readnone|writeonly|returned|'
    r'signext|zeroext|inreg|immarg|swiftself|nofree|nest|dead_on_unwind|writable|'
    r'noext|allocptr|'
    r'align\s+\d+|align\(\d+\)|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|'
    r'range\([^)]*\)|captures\([^)]*\)|memory\([^)]*\)|allocalign)(?![-\w.])')
_typed_attr_re = re.compile(r'\s*(sret|byval|byref|inalloca|preallocated|elementtype)\(')


class P:
    """A cursor over a piece of IR text."""

    def __init__(self, s, mod, i=0):
        self.s, self.mod, self.i = s, mod, i

    def ws(self):
        self.i = _ws.match(self.s, self.i).end()

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Unsupported('parse: expected %r at %r' % (t, self.s[self.i:self.i + 60]))

    def rx(self, r):
        self.ws()
        m = re.compile(r).match(self.s, self.i)
        if m:
            self.i = m.end()
        return m

    def word(self):
        m = self.rx(r'[a-zA-Z_][\w.]*')
        return m.group(0) if m else None

    def type(self):
        self.ws()
        s, i = self.s, self.i
        t = None
        m = re.compile(r'i(\d+)\b').match(s, i)
        if m:
            self.i = m.end()
            t = INT(int(m.group(1)))
        elif s.startswith('ptr', i):
            self.i += 3
            if self.rx(r'addrspace\(\d+\)'):
                pass
            t = PTR
        elif s.startswith('void', i):
            self.i += 4
            t = VOID
        elif s.startswith('label', i):
            self.i += 5
            t = LABEL
        elif s.startswith('metadata', i):
            self.i += 8
            t = META
        elif s.startswith('token', i):
            self.i += 5
            t = Ty('token')
        elif s[i] == '[':
            self.i += 1
            n = int(self.rx(r'\d+').group(0))
            self.need('x')
            e = self.type()
            self.need(']')
            t = Ty('arr', n, e)
        elif s.startswith('<{', i):
            self.i += 2
            t = Ty('struct', self._members('}'), True)
            self.need('>')
        elif s[i] == '<':
            self.i += 1
            n = int(self.rx(r'\d+').group(0))
            self.need('x')
            e = self.type()
            self.need('>')
            t = Ty('vec', n, e)
        elif s[i] == '{':
            self.i += 1
            t = Ty('struct', self._members('}'), False)
        elif s[i] == '%':
            m = _name_re.match(s, i)
            self.i = m.end()
            t = Ty('named', m.group(1).strip('"'))
        else:
            for f in FLOATS:
                if s.startswith(f, i):
                    self.i += len(f)
                    t = Ty('fp', f)
                    break
        if t is None:
            raise Unsupported('parse type at %r' % s[i:i + 60])
        # function type suffix
        while True:
            self.ws()
            if self.s.startswith('(', self.i) and t.k in ('void', 'int', 'ptr', 'fp', 'named', 'struct'):
                # function type (varargs call):  i32 (ptr, ...)
                save = self.i
                d, j = 0, self.i
                while True:
                    c = self.s[j]
                    d += (c == '(') - (c == ')')
                    j += 1
                    if d == 0:
                        break
                nxt = _ws.match(self.s, j).end()
                if self.s[nxt:nxt + 1] in ('@', '%'):
                    self.i = j
                    return t
                self.i = save
            break
        return t

    def _members(self, close):
        out = []
        if self.eat(close):
            return out
        while True:
            out.append(self.type())
            if self.eat(close):
                return out
            self.need(',')

    def attrs(self):
        while True:
            m = _attr_re.match(self.s, self.i)
            if m:
                self.i = m.end()
                continue
            m = _typed_attr_re.match(self.s, self.i)
            if m:
                self.i = m.end()
                self.type()
                self.need(')')
                continue
            m = re.compile(r'\s*"[^"]*"(="[^"]*")?').match(self.s, self.i)
            if m:
                self.i = m.end()
                continue
            return

    def value(self, ty):
        """Operand: ('reg',n) ('glob',n) ('int',v) ('fp',v) ('null',) ('undef',)
        ('zero',) ('agg',[..]) ('str',bytes) ('cexpr',op,...)"""
        self.ws()
        s, i = self.s, self.i
        c = s[i]
        if c == '%':
            m = _name_re.match(s, i)
            self.i = m.end()
            return ('reg', m.group(1).strip('"'))
        if c == '@':
            m = _name_re.match(s, i)
            self.i = m.end()
            return ('glob', m.group(1).strip('"'))
        m = re.compile(r'0x[KMLHR]?[0-9A-Fa-f]+').match(s, i)
        if m:
            self.i = m.end()
            import struct
            h = m.group(0)[2:]
            if h[0] in 'KMLHR':
                if h[0] == 'K':
                    v = int(h[1:], 16)
                    man = v & ((1 << 64) - 1)
                    ex = (v >> 64) & 0x7fff
                    sg = -1 if v >> 79 else 1
                    from fractions import Fraction
                    return ('fp', float(sg * Fraction(man) * Fraction(2) ** (ex - 16383 - 63)) if ex != 0x7fff else float('inf') * sg)
                raise Unsupported('fp const ' + m.group(0))
            return ('fp', struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0])
        m = re.compile(r'-?\d+\.\d*(e[+-]?\d+)?').match(s, i)
        if m:
            self.i = m.end()
            return ('fp', float(m.group(0)))
        m = re.compile(r'-?\d+').match(s, i)
        if m:
            self.i = m.end()
            return ('int', int(m.group(0)))
        for w, v in (('true', ('int', 1)), ('false', ('int', 0)), ('null', ('null',)),
                     ('undef', ('undef',)), ('poison', ('undef',)), ('zeroinitializer', ('zero',))):
            m = re.compile(w + r'(?![\w.])').match(s, i)
            if m:
                self.i = m.end()
                return v
        if s.startswith('c"', i):
            j = s.index('"', i + 2)
            self.i = j + 1
            raw = s[i + 2:j]
            out = bytearray()
            k = 0
            while k < len(raw):
                if raw[k] == '\\':
                    out.append(int(raw[k + 1:k + 3], 16))
                    k += 3
                else:
                    out.append(ord(raw[k]))
                    k += 1
            return ('str', bytes(out))
        if s.startswith('<{', i):
            self.i += 2
            r = self._aggvals('}')
            self.need('>')
            return r
        if c in '[{<':
            self.i += 1
            return self._aggvals({'[': ']', '{': '}', '<': '>'}[c])
        m = re.compile(r'(getelementptr|bitcast|inttoptr|ptrtoint|addrspacecast|trunc|sub|add|mul|xor|icmp|select)\b').match(s, i)
        if m:
            self.i = m.end()
            op = m.group(1)
            self.rx(r'inbounds|nuw|nsw')
            self.rx(r'inrange\([^)]*\)')
            if op == 'getelementptr':
                self.need('(')
                st = self.type()
                self.need(',')
                ops = []
                while True:
                    self.rx('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.eat(')'):
                        break
                    self.need(',')
                return ('cexpr', 'gep', st, ops)
            if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc'):
                self.need('(')
                t = self.type()
                v = self.value(t)
                self.need('to')
                t2 = self.type()
                self.need(')')
                return ('cexpr', op, t, v, t2)
            if op in ('sub', 'add', 'mul', 'xor'):
                self.rx(r'(nuw|nsw)\s*(nuw|nsw)?')
                self.need('(')
                t = self.type()
                v = self.value(t)
                self.need(',')
                t2 = self.type()
                v2 = self.value(t2)
                self.need(')')
                return ('cexpr', op, t, v, v2)
        raise Unsupported('parse value at %r' % s[i:i + 60])

    def _aggvals(self, close):
        out = []
        if self.eat(close):
            return ('agg', out)
        while True:
            t = self.type()
            out.append((t, self.value(t)))
            if self.eat(close):
                return ('agg', out)
            self.need(',')

    def tv(self):
        t = self.type()
        self.attrs()
        return (t, self.value(t))


class Inst:
    __slots__ = ('op', 'res', 'ty', 'x', 'text')

    def __init__(self, op, res, ty=None, **x):
        self.op, self.res, self.ty, self.x = op, res, ty, x

    def __repr__(self):
        return '%s = %s %r %r' % (self.res, self.op, self.ty, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []

    def succs(self):
        t = self.insts[-1]
        if t.op == 'br':
            return list(t.x['targets'])
        if t.op == 'switch':
            return [t.x['default']] + [c[1] for c in t.x['cases']]
        if t.op == 'invoke':
            return [t.x['normal']]  # unwind edges are handled as throw outcomes
        return []


class Function:
    def __init__(self, mod, name, header, body):
        self.mod, self.name = mod, name
        self.header, self.body = header, body
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        p = P(self.header, self.mod)
        p.i = self.header.index('@')
        m = _name_re.match(self.header, p.i)
        # return type is not needed except for void/sret
        p.i = m.end()
        p.need('(')
        self.params = []
        self.sret = False
        self.varargs = False
        n = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    self.varargs = True
                    p.need(')')
                    break
                t = p.type()
                save = p.i
                p.attrs()
                if 'sret(' in p.s[save:p.i]:
                    self.sret = True
                p.ws()
                if p.s[p.i] == '%':
                    mm = _name_re.match(p.s, p.i)
                    nm = mm.group(1).strip('"')
                    p.i = mm.end()
                else:
                    nm = str(n)
                self.params.append((t, nm))
                n += 1
                if p.eat(')'):
                    break
                p.need(',')
        self.blocks = {}
        self.order = []
        cur = None
        lines = self._join(self.body)
        first = True
        for ln in lines:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = Block(m.group(1).strip('"'))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                first = False
                continue
            if first:
                cur = Block(str(self._entry_number()))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                first = False
            ins = parse_inst(ln.strip(), self.mod)
            if ins is not None:
                cur.insts.append(ins)
        self.entry = self.order[0]
        self._analyse()
        return self

    def _entry_number(self):
        nums = [int(n) for _, n in self.params if n.isdigit()]
        return max(nums) + 1 if nums else 0

    @staticmethod
    def _join(body):
        out = []
        for ln in body.split('\n'):
            if ln.strip() == '' or ln.lstrip().startswith(';'):
                continue
            ln = re.sub(r'\s+; preds = .*$', '', ln)
            st = ln.strip()
            if out and (st.startswith('to label ') or st.startswith('catch ') or st == 'cleanup'
                        or st.startswith('filter ')):
                out[-1] += ' ' + st
                continue
            if out and re.match(r'\s*switch ', out[-1]) and not re.search(r'\]\s*(,\s*!.*)?$', out[-1]):
                out[-1] += ' ' + st
                continue
            if out and '= landingpad' in out[-1] and st == 'cleanup':
                out[-1] += ' cleanup'
                continue
            out.append(ln)
        return out

    def _analyse(self):
        # predecessors, dominators, natural loops
        B = self.blocks
        preds = {b: [] for b in B}
        for b in B:
            for s in B[b].succs():
                preds[s].append(b)
        self.preds = preds
        # reachable rpo
        seen, post = set(), []
        stack = [(self.entry, iter(B[self.entry].succs()))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(B[s].succs())))
                    break
            else:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        self.rpo = rpo
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in B[b].succs():
                if idx[s] <= idx[b]:
                    if not dom(s, b):
                        raise Unsupported('irreducible control flow in ' + self.name)
                    body = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        n = st.pop()
                        if n in body:
                            continue
                        body.add(n)
                        st.extend(p for p in preds[n] if p in idx)
        self.backedges = {h: set(b for b in body if h in B[b].succs()) for h, body in self.loops.items()}


_meta_tail = re.compile(r'(,\s*![\w.]+\s+!\d+|,\s*![\w.]+\s*!\{\})+\s*$')


def parse_inst(s, mod):
    s = _meta_tail.sub('', s)
    s = re.sub(r'\s+#\d+\s*$', '', s)
    res = None
    m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = ', s)
    if m:
        res = m.group(1).strip('"')
        s = s[m.end():]
    s0 = s
    p = P(s, mod)
    p.rx(r'(tail|musttail|notail)\s')
    op = p.word()
    try:
        r = _parse_op(p, op, res, mod)
    except IndexError:
        raise Unsupported('parse inst %r' % s0)
    if r is not None:
        r.text = s0
    return r


def _parse_op(p, op, res, mod):
    if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor'):
        fl = set()
        while True:
            m = p.rx(r'(nuw|nsw|exact|disjoint)\b')
            if not m:
                break
            fl.add(m.group(1))
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return Inst(op, res, t, a=a, b=b, fl=fl)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
        while p.rx(r'(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\b'):
            pass
        t = p.type()
        a = p.value(t)
        b = None
        if op != 'fneg':
            p.need(',')
            b = p.value(t)
        return Inst(op, res, t, a=a, b=b)
    if op in ('icmp', 'fcmp'):
        while p.rx(r'(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|samesign)\b'):
            pass
        pr = p.word()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return Inst(op, res, t, pred=pr, a=a, b=b)
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc',
              'sitofp', 'uitofp', 'fptosi', 'fptoui', 'addrspacecast'):
        p.rx(r'(nneg|nuw|nsw)\b')
        p.rx(r'(nuw|nsw)\b')
        t, v = p.tv()
        p.need('to')
        t2 = p.type()
        return Inst(op, res, t2, src=t, a=v)
    if op == 'alloca':
        p.rx(r'inalloca')
        t = p.type()
        n = None
        if p.eat(','):
            if not p.peek('align'):
                n = p.tv()
        return Inst('alloca', res, t, n=n)
    if op == 'load':
        p.rx(r'(volatile|atomic)\b')
        at = 'atomic' in p.s[:20]
        t = p.type()
        p.need(',')
        pt, pv = p.tv()
        return Inst('load', res, t, ptr=pv)
    if op == 'store':
        p.rx(r'(volatile|atomic)\b')
        t, v = p.tv()
        p.need(',')
        pt, pv = p.tv()
        return Inst('store', res, t, a=v, ptr=pv)
    if op == 'getelementptr':
        p.rx(r'(inbounds|nuw|nusw)\b')
        p.rx(r'(inbounds|nuw|nusw)\b')
        t = p.type()
        p.need(',')
        ops = []
        while True:
            tt = p.type()
            ops.append((tt, p.value(tt)))
            if not p.eat(','):
                break
        return Inst('gep', res, t, ops=ops)
    if op == 'br':
        if p.eat('label'):
            v = p.value(LABEL)
            return Inst('br', None, None, cond=None, targets=[v[1]])
        t = p.type()
        c = p.value(t)
        p.need(',')
        p.need('label')
        a = p.value(LABEL)
        p.need(',')
        p.need('label')
        b = p.value(LABEL)
        return Inst('br', None, None, cond=c, targets=[a[1], b[1]])
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.need(',')
        p.need('label')
        d = p.value(LABEL)[1]
        p.need('[')
        cases = []
        while not p.eat(']'):
            t2 = p.type()
            c = p.value(t2)
            p.need(',')
            p.need('label')
            cases.append((c[1], p.value(LABEL)[1]))
        return Inst('switch', None, t, a=v, default=d, cases=cases)
    if op == 'ret':
        if p.eat('void'):
            return Inst('ret', None, VOID, a=None)
        t, v = p.tv()
        return Inst('ret', None, t, a=v)
    if op == 'unreachable':
        return Inst('unreachable', None)
    if op == 'resume':
        t, v = p.tv()
        return Inst('resume', None, t, a=v)
    if op == 'phi':
        while p.rx(r'(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\b'):
            pass
        t = p.type()
        inc = []
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            b = p.value(LABEL)
            p.need(']')
            inc.append((v, b[1]))
            if not p.eat(','):
                break
        return Inst('phi', res, t, inc=inc)
    if op == 'select':
        while p.rx(r'(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\b'):
            pass
        ct, c = p.tv()
        p.need(',')
        t, a = p.tv()
        p.need(',')
        t2, b = p.tv()
        return Inst('select', res, t, c=c, a=a, b=b)
    if op in ('call', 'invoke'):
        while p.rx(r'(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|fastcc|ccc|coldcc|dso_local|noalias|noundef|nonnull|signext|zeroext)\b(?![-\w.]*\()'):
            pass
        p.attrs()
        t = p.type()
        p.ws()
        if p.s.startswith('asm', p.i):
            return Inst('asm', res, t)
        callee = p.value(PTR)
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at is META:
                    # metadata operands: drop the whole call
                    return None
                p.attrs()
                args.append((at, p.value(at)))
                if p.eat(')'):
                    break
                p.need(',')
        x = dict(callee=callee, args=args)
        if op == 'invoke':
            m = re.compile(r'.*?to label %("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) unwind label %("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)').match(p.s, p.i)
            x['normal'] = m.group(1).strip('"')
            x['unwind'] = m.group(2).strip('"')
        return Inst(op, res, t, **x)
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.eat(','):
            idx.append(int(p.rx(r'\d+').group(0)))
        return Inst('extractvalue', res, t, a=v, idx=idx)
    if op == 'insertvalue':
        t, v = p.tv()
        p.need(',')
        t2, v2 = p.tv()
        idx = []
        while p.eat(','):
            idx.append(int(p.rx(r'\d+').group(0)))
        return Inst('insertvalue', res, t, a=v, b=v2, bt=t2, idx=idx)
    if op == 'freeze':
        t, v = p.tv()
        return Inst('freeze', res, t, a=v)
    if op == 'extractelement':
        t, v = p.tv()
        p.need(',')
        t2, v2 = p.tv()
        return Inst('extractelement', res, t, a=v, b=v2)
    if op == 'insertelement':
        t, v = p.tv()
        p.need(',')
        t1, v1 = p.tv()
        p.need(',')
        t2, v2 = p.tv()
        return Inst('insertelement', res, t, a=v, b=v1, c=v2)
    if op in ('landingpad', 'fence', 'cmpxchg', 'atomicrmw', 'va_arg', 'shufflevector'):
        return Inst(op, res)
    raise Unsupported('opcode %r in %r' % (op, p.s[:80]))


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self.decls = set()
        i = 0
        for m in re.finditer(r'^%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)$', text, re.M):
            self.types[m.group(1).strip('"')] = m.group(2)
        for m in re.finditer(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', text, re.M):
            nm, rest = m.group(1).strip('"'), m.group(2)
            ma = re.match(r'.*\balias\b.*@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', rest)
            if re.search(r'\balias\b', rest.split('"')[0]) and ma:
                self.aliases[nm] = ma.group(1).strip('"')
            else:
                self.globals[nm] = rest
        for m in re.finditer(r'^(define [^\n]*)\{\n(.*?)^\}', text, re.M | re.S):
            h = m.group(1)
            nm = _name_re.search(h, h.index('@')).group(1).strip('"')
            self.funcs[nm] = Function(self, nm, h, m.group(2))
        for m in re.finditer(r'^declare [^\n]*', text, re.M):
            h = m.group(0)
            self.decls.add(_name_re.search(h, h.index('@')).group(1).strip('"'))
        names = list(self.funcs) + list(self.decls)
        out = subprocess.run(['c++filt'], input='\n'.join(names), text=True, capture_output=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self._tycache = {}

    def named(self, n):
        if n not in self._tycache:
            d = self.types.get(n)
            if d is None or d.strip() == 'opaque':
                raise Unsupported('opaque type ' + n)
            self._tycache[n] = P(d, self).type()
        return self._tycache[n]

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, align, [(offset, type)]|None)"""
        k = t.k
        if k == 'int':
            b = max(1, (t.a + 7) // 8)
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16), None
        if k == 'ptr':
            return 8, 8, None
        if k == 'fp':
            s = FLOATS[t.a]
            return s, s, None
        if k == 'arr':
            s, a, _ = self.layout(t.b)
            return s * t.a, a, None
        if k == 'vec':
            s, a, _ = self.layout(t.b)
            return s * t.a, s * t.a, None
        if k == 'named':
            return self.layout(self.named(t.a))
        if k == 'struct':
            off, al, out = 0, 1, []
            for m in t.a:
                s, a, _ = self.layout(m)
                if t.b:
                    a = 1
                off = (off + a - 1) // a * a
                out.append((off, m))
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al, out
        raise Unsupported('layout of %r' % t)

    def resolve(self, t):
        while t.k == 'named':
            t = self.named(t.a)
        return t
