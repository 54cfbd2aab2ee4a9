"""Parser for textual LLVM 18 IR and per-basic-block compilation to Python code."""
import re
import struct

TOK = re.compile(r'''\s*(?:
 (c?"(?:[^"\\]|\\.)*") |
 ([%@!](?:"[^"]*"|[\w.$-]+)) |
 (-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+) |
 ([A-Za-z_][\w.]*) |
 (\.\.\.) |
 (\#\d+) |
 (.)
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        k = m(s, pos)
        if not k:
            break
        pos = k.end()
        t = k.group(k.lastindex)
        if t == ';':
            break
        if t.strip():
            out.append(t)
    return out


FW = {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16, 'bfloat': 16, 'fp128': 128}


class P(object):
    """token stream"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = ('ptr',)
            if self.acc('addrspace'):
                self.exp('(')
                self.next()
                self.exp(')')
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t in FW:
            r = ('f', FW[t])
        elif t == 'void':
            r = ('void',)
        elif t == 'label':
            r = ('label',)
        elif t == 'metadata':
            r = ('metadata',)
        elif t == 'token':
            r = ('token',)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                els = []
                while not self.acc('}'):
                    els.append(self.type())
                    self.acc(',')
                self.exp('>')
                r = ('struct', tuple(els), True)
            else:
                n = int(self.next())
                self.exp('x')
                e = self.type()
                self.exp('>')
                r = ('vec', n, e)
        elif t == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            r = ('arr', n, e)
        elif t == '{':
            els = []
            while not self.acc('}'):
                els.append(self.type())
                self.acc(',')
            r = ('struct', tuple(els), False)
        elif t[0] == '%':
            r = self.mod.named(t)
        else:
            raise SyntaxError('type ' + t + ' in ' + ' '.join(self.t))
        # function type
        while self.peek() == '(' and r[0] != 'fn' and self._isfnty():
            self.next()
            while not self.acc(')'):
                if not self.acc('...'):
                    self.type()
                self.acc(',')
            r = ('fn', r)
        return r

    def _isfnty(self):
        # only in call with explicit vararg signature: "i32 (ptr, ...) @f("
        j = self.i
        d = 0
        while j < len(self.t):
            if self.t[j] == '(':
                d += 1
            if self.t[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        nxt = self.t[j + 1] if j + 1 < len(self.t) else None
        return nxt is not None and nxt[0] in '@%'


def sizeof(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return p if n <= 16 else n
    if k == 'f':
        return 16 if t[1] == 80 else t[1] // 8
    if k == 'ptr':
        return 8
    if k == 'vec':
        if t[2] == ('i', 1):
            return (t[1] + 7) // 8
        return t[1] * sizeof(t[2])
    if k == 'arr':
        return t[1] * sizeof(t[2])
    if k == 'struct':
        off = 0
        for e in t[1]:
            if not t[2]:
                a = alignof(e)
                off = (off + a - 1) // a * a
            off += sizeof(e)
        a = alignof(t)
        return (off + a - 1) // a * a
    if k == 'opaque':
        return 1
    if k == 'fn':
        return 1
    raise Exception('sizeof %r' % (t,))


def alignof(t):
    k = t[0]
    if k in ('i', 'f', 'ptr'):
        return min(sizeof(t), 16)
    if k == 'vec':
        return sizeof(t)
    if k == 'arr':
        return alignof(t[2])
    if k == 'struct':
        if t[2]:
            return 1
        return max([alignof(e) for e in t[1]] or [1])
    return 1


def fieldoff(t, idx):
    off = 0
    for i, e in enumerate(t[1]):
        if not t[2]:
            a = alignof(e)
            off = (off + a - 1) // a * a
        if i == idx:
            return off, e
        off += sizeof(e)
    raise Exception('field')


def bits(t):
    k = t[0]
    if k in ('i', 'f'):
        return t[1]
    if k == 'ptr':
        return 64
    raise Exception('bits %r' % (t,))


def fconst(tok, w):
    if tok.startswith('0xK'):
        return int(tok[3:], 16)
    if tok.startswith('0xH'):
        return int(tok[3:], 16)
    if tok.startswith('0x'):
        d = int(tok[2:], 16)
        x = struct.unpack('<d', struct.pack('<Q', d))[0]
    else:
        x = float(tok)
        d = struct.unpack('<Q', struct.pack('<d', x))[0]
    if w == 64:
        return d
    if w == 32:
        if x != x:
            # keep payload top bits
            s = d >> 63
            return (s << 31) | 0x7f800000 | ((d >> 29) & 0x7fffff)
        return struct.unpack('<I', struct.pack('<f', x))[0]
    raise Exception('fconst')


class Module(object):
    def __init__(self, path):
        self.types = {}
        self.typesrc = {}
        self.globals = {}      # name -> (type, init tokens, const)
        self.funcsrc = {}      # name -> (header, [lines])
        self.decls = {}
        self.funcs = {}
        lines = open(path).read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                name = self._fname(s)
                self.funcsrc[name] = (s, lines[i + 1:j])
                i = j
            elif s.startswith('declare'):
                self.decls[self._fname(s)] = s
            elif s.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)', s)
                self.globals[m.group(1)[1:].strip('"')] = m.group(2)
            elif s.startswith('%'):
                m = re.match(r'(%"[^"]*"|%[\w.$:<>-]+) = type (.*)', s)
                self.typesrc[m.group(1)] = m.group(2)
            i += 1

    @staticmethod
    def _fname(s):
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', s)
        return m.group(1).strip('"')

    def named(self, t):
        r = self.types.get(t)
        if r is None:
            src = self.typesrc.get(t)
            if src is None or src == 'opaque':
                r = ('opaque', t)
            else:
                # guard recursion (opaque pointers: no recursion possible by value)
                r = P(tokenize(src), self).type()
            self.types[t] = r
        return r

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            src = self.funcsrc.get(name)
            if src is None:
                return None
            f = self.funcs[name] = Function(self, name, *src)
        return f


ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext returned immarg inreg
local_unnamed_addr unnamed_addr dso_local hidden internal private linkonce_odr weak weak_odr linkonce external
fastcc ccc tail musttail notail nounwind willreturn nsw nuw exact inbounds fast nnan ninf nsz arcp contract afn
reassoc volatile atomic noreturn cold mustprogress disjoint nneg allocptr allocalign swiftself nest
dead_on_unwind writable samesign thread_local appending available_externally common protected default
dso_preemptable extern_weak uwtable nofree nosync'''.split())


class Function(object):
    def __init__(self, mod, name, header, lines):
        self.mod = mod
        self.name = name
        self.regs = {}
        self.rtype = []
        p = P(tokenize(header), mod)
        p.exp('define')
        self._skipattrs(p)
        self.ret = p.type()
        p.next()
        p.exp('(')
        self.params = []
        self.vararg = False
        while not p.acc(')'):
            if p.acc('...'):
                self.vararg = True
                continue
            t = p.type()
            self._skipattrs(p)
            nm = p.next() if p.peek() and p.peek()[0] == '%' else None
            self.reg(nm, t)
            self.params.append(t)
            p.acc(',')
        # blocks
        self.blocks = []       # (label, [lines])
        cur = None
        first = True
        k = 0
        while k < len(lines):
            s = lines[k]
            k += 1
            if not s.strip():
                continue
            if s[0] not in ' \t':
                m = re.match(r'("[^"]*"|[\w.$-]+):', s)
                if m:
                    cur = []
                    self.blocks.append((m.group(1).strip('"'), cur))
                    first = False
                    continue
            if first:
                cur = []
                self.blocks.append((None, cur))
                first = False
            if s.strip().startswith('switch') and not s.rstrip().endswith(']'):
                while not lines[k].strip().startswith(']'):
                    s += ' ' + lines[k]
                    k += 1
                s += ' ' + lines[k]
                k += 1
            cur.append(s)
        if self.blocks and self.blocks[0][0] is None:
            # implicit label number = number of unnamed params
            self.blocks[0] = (str(sum(1 for r in self.regs if re.match(r'%\d+$', str(r)))), self.blocks[0][1])
        self.bidx = {l: i for i, (l, _) in enumerate(self.blocks)}
        self.compiled = False

    def _skipattrs(self, p):
        while True:
            t = p.peek()
            if t is None:
                return
            if t in ATTRS:
                p.next()
                if t == 'thread_local' and p.peek() == '(':
                    self._paren(p)
                continue
            if t in ('align',):
                p.next()
                if p.peek() == '(':
                    self._paren(p)
                else:
                    p.next()
                continue
            if t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'memory',
                     'captures', 'allocsize', 'nofpclass', 'byref', 'preallocated', 'inalloca'):
                p.next()
                self._paren(p)
                continue
            if t[0] == '#':
                p.next()
                continue
            return

    @staticmethod
    def _paren(p):
        p.exp('(')
        d = 1
        while d:
            t = p.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    def reg(self, nm, t):
        if nm is None:
            nm = ('anon', len(self.rtype))
        i = self.regs.get(nm)
        if i is None:
            i = self.regs[nm] = len(self.rtype)
            self.rtype.append(t)
        elif t is not None:
            self.rtype[i] = t
        return i

    # ---- operands -> python expression strings
    def operand(self, p, t):
        """parse a value of type t; returns python expr"""
        tok = p.next()
        if tok[0] == '%':
            i = self.regs.get(tok)
            if i is None:
                i = self.reg(tok, None)
            self.uses.add(i)
            return 'R[%d]' % i
        return self.lit(self.const(p, t, tok))

    def lit(self, v):
        if isinstance(v, int):
            return repr(v)
        if isinstance(v, GAddr):
            self.K.append(v)
            return 'K[%d]' % (len(self.K) - 1)
        self.K.append(v)
        return 'K[%d]' % (len(self.K) - 1)

    def const(self, p, t, tok=None):
        return parse_const(p, t, self.mod, tok)

    # ---- compile
    def compile(self, E):
        self.compiled = True
        self.K = []
        nb = len(self.blocks)
        self.code = [None] * nb
        self.edges = {}
        self.succ = [[] for _ in range(nb)]
        self.phis = [[] for _ in range(nb)]    # (dst, type, {pred: expr})
        self.defs = [set() for _ in range(nb)]
        self.useb = [set() for _ in range(nb)]
        self.phiuse = {}
        # pre-pass: register result types lazily handled as instructions parse in order; phi needs own types
        parsed = []
        for bi, (lab, lines) in enumerate(self.blocks):
            ins = []
            for s in lines:
                s = s.strip()
                if s.startswith(';') or not s:
                    continue
                toks = tokenize(s)
                # strip metadata
                for q, tk in enumerate(toks):
                    if tk == ',' and q + 1 < len(toks) and toks[q + 1][0] == '!' and len(toks[q + 1]) > 1:
                        toks = toks[:q]
                        break
                ins.append(toks)
            parsed.append(ins)
        self.src = []
        bodies = []
        for bi, ins in enumerate(parsed):
            self.uses = set()
            out = []
            self.cur = bi
            for toks in ins:
                self.instr(toks, out)
            bodies.append(out)
            self.useb[bi] = self.uses
        # phi edges
        txt = []
        for bi, out in enumerate(bodies):
            txt.append('def b%d(E,st,R):' % bi)
            body = []
            for l in out:
                if l.startswith('@@GOTO'):
                    # @@GOTO indent target
                    _, ind, tgt = l.split()
                    tgt = int(tgt)
                    body.extend(self._edge(bi, tgt, ' ' * int(ind)))
                    body.append(' ' * int(ind) + 'return %d' % tgt)
                else:
                    body.append(l)
            txt.extend(' ' + l for l in body)
        for bi in range(nb):
            for tgt in self.succ[bi]:
                if self.phis[tgt]:
                    txt.append('def e%d_%d(E,st,R):' % (bi, tgt))
                    txt.extend(self._edge(bi, tgt, ' '))
        ns = E.codens(self.K)
        src = '\n'.join(txt)
        self.pysrc = src
        exec(compile(src, self.name[:60], 'exec'), ns)
        for bi in range(nb):
            self.code[bi] = ns['b%d' % bi]
            for tgt in self.succ[bi]:
                self.edges[(bi, tgt)] = ns.get('e%d_%d' % (bi, tgt))
        self._postdom()
        self._live = None
        self.nregs = len(self.rtype)

    def _edge(self, b, tgt, ind):
        ph = self.phis[tgt]
        if not ph:
            return []
        if len(ph) == 1:
            d, t, src = ph[0]
            return ['%sR[%d]=%s' % (ind, d, src[b])]
        dst = ','.join('R[%d]' % d for d, t, src in ph)
        s = ','.join(src[b] for d, t, src in ph)
        return ['%s%s=%s' % (ind, dst, s)]

    def _postdom(self):
        nb = len(self.blocks)
        EX = nb
        succ = [list(s) if s else [EX] for s in self.succ] + [[]]
        # make sure all blocks reach exit: compute reverse reachability
        pred = [[] for _ in range(nb + 1)]
        for b in range(nb):
            for s in succ[b]:
                pred[s].append(b)
        # reverse postorder from exit on reverse graph
        seen = set([EX])
        order = []
        stack = [(EX, iter(pred[EX]))]
        while stack:
            x, it = stack[-1]
            adv = False
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred[y])))
                    adv = True
                    break
            if not adv:
                order.append(x)
                stack.pop()
        order.reverse()
        num = {x: i for i, x in enumerate(order)}
        idom = {EX: EX}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == EX:
                    continue
                new = None
                for s in succ[b]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.ipdom = [(-1 if idom.get(b, EX) == EX else idom[b]) for b in range(nb)]
        # back edges / loops: approximate 'in loop' by DFS back edge detection
        # region acyclic flag computed lazily
        self._diamond = {}

    def diamond(self, b):
        """true if the region between block b and its immediate postdominator is acyclic and call free"""
        r = self._diamond.get(b)
        if r is not None:
            return r
        P_ = self.ipdom[b]
        r = True
        # dfs from successors, not passing P_; if we can reach b or cycle -> not diamond
        state = {}

        def dfs(x):
            if x == P_:
                return True
            if x == b:
                return False
            if state.get(x) == 1:
                return False
            if state.get(x) == 2:
                return True
            state[x] = 1
            for s in self.succ[x]:
                if not dfs(s):
                    return False
            state[x] = 2
            return len(state) < 12 and not self.hascall[x]
        for s in self.succ[b]:
            if not dfs(s):
                r = False
                break
        self._diamond[b] = r
        return r

    def live_in(self, b):
        """registers live at entry of block b (after phi assignment)"""
        if self._live is None:
            nb = len(self.blocks)
            live = [set() for _ in range(nb)]
            ch = True
            while ch:
                ch = False
                for x in range(nb - 1, -1, -1):
                    out = set()
                    for s in self.succ[x]:
                        out |= live[s] - set(d for d, t, q in self.phis[s])
                        out |= self.phiuse.get((x, s), set())
                    new = (out - self.defs[x]) | self.useb[x] | set(d for d, t, q in self.phis[x])
                    if new != live[x]:
                        live[x] = new
                        ch = True
            self._live = live
        return self._live[b]

    # ------------------------------------------------------------ instruction compile
    hascall = None

    def setreg(self, nm, t):
        i = self.reg(nm, t)
        self.defs[self.cur].add(i)
        return 'R[%d]' % i

    def instr(self, toks, out):
        if self.hascall is None:
            self.hascall = {}
        self.hascall.setdefault(self.cur, False)
        p = P(toks, self.mod)
        dst = None
        if toks[0][0] == '%' and toks[1] == '=':
            dst = toks[0]
            p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        m = getattr(self, 'i_' + op, None)
        if m is None:
            if op in BINOPS:
                return self.binop(op, p, dst, out)
            if op in CASTS:
                return self.cast(op, p, dst, out)
            raise SyntaxError('opcode %s in %s' % (op, ' '.join(toks)))
        return m(p, dst, out)

    def flags(self, p):
        while p.peek() in ATTRS:
            p.next()

    def binop(self, op, p, dst, out):
        self.flags(p)
        t = p.type()
        a = self.operand(p, t)
        p.exp(',')
        b = self.operand(p, t)
        d = self.setreg(dst, t)
        if t[0] == 'vec':
            w = bits(t[2])
            out.append('%s=vbin(E,%r,%s,%s,%d,%d)' % (d, op, a, b, t[1], w))
            return
        w = bits(t)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            out.append('%s=fop(%r,%s,%s,%d)' % (d, op, a, b, w))
            return
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            out.append('%s=E.div(st,%r,%s,%s,%d)' % (d, op, a, b, w))
            return
        fast = {'add': '(a+b)&%d', 'sub': '(a-b)&%d', 'mul': '(a*b)&%d'}.get(op)
        if fast:
            out.append('a=%s;b=%s' % (a, b))
            out.append('%s=%s if type(a) is int and type(b) is int else X.%s(a,b,%d)' % (d, fast % ((1 << w) - 1), op, w))
            return
        f2 = {'and': 'a&b', 'or': 'a|b', 'xor': 'a^b'}.get(op)
        if f2:
            out.append('a=%s;b=%s' % (a, b))
            out.append('%s=%s if type(a) is int and type(b) is int else X.%s(a,b,%d)' % (
                d, f2, {'and': 'and_', 'or': 'or_', 'xor': 'xor'}[op], w))
            return
        out.append('%s=X.%s(%s,%s,%d)' % (d, op, a, b, w))

    def i_fneg(self, p, dst, out):
        self.flags(p)
        t = p.type()
        a = self.operand(p, t)
        d = self.setreg(dst, t)
        if t[0] == 'vec':
            out.append('%s=vun(lambda x:fneg(x,%d),%s,%d,%d)' % (d, bits(t[2]), a, t[1], bits(t[2])))
        else:
            out.append('%s=fneg(%s,%d)' % (d, a, bits(t)))

    def i_freeze(self, p, dst, out):
        t = p.type()
        a = self.operand(p, t)
        out.append('%s=%s' % (self.setreg(dst, t), a))

    def i_icmp(self, p, dst, out):
        self.flags(p)
        pred = p.next()
        t = p.type()
        a = self.operand(p, t)
        p.exp(',')
        b = self.operand(p, t)
        if t[0] == 'vec':
            d = self.setreg(dst, ('vec', t[1], ('i', 1)))
            out.append('%s=vicmp(%r,%s,%s,%d,%d)' % (d, pred, a, b, t[1], bits(t[2])))
            return
        w = bits(t)
        d = self.setreg(dst, ('i', 1))
        out.append('a=%s;b=%s' % (a, b))
        fast = {'eq': 'a==b', 'ne': 'a!=b', 'ult': 'a<b', 'ule': 'a<=b', 'ugt': 'a>b', 'uge': 'a>=b'}.get(pred)
        if not fast:
            h = 1 << (w - 1)
            fast = '(a^%d)%s(b^%d)' % (h, {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pred], h)
        out.append('%s=(1 if %s else 0) if type(a) is int and type(b) is int else icmp(%r,a,b,%d)' % (d, fast, pred, w))

    def i_fcmp(self, p, dst, out):
        self.flags(p)
        pred = p.next()
        t = p.type()
        a = self.operand(p, t)
        p.exp(',')
        b = self.operand(p, t)
        if t[0] == 'vec':
            d = self.setreg(dst, ('vec', t[1], ('i', 1)))
            out.append('%s=vfcmp(%r,%s,%s,%d,%d)' % (d, pred, a, b, t[1], bits(t[2])))
            return
        d = self.setreg(dst, ('i', 1))
        out.append('%s=fcmp(%r,%s,%s,%d)' % (d, pred, a, b, bits(t)))

    def i_select(self, p, dst, out):
        self.flags(p)
        ct = p.type()
        c = self.operand(p, ct)
        p.exp(',')
        t = p.type()
        a = self.operand(p, t)
        p.exp(',')
        t = p.type()
        b = self.operand(p, t)
        d = self.setreg(dst, t)
        if t[0] == 'vec':
            if ct[0] == 'vec':
                out.append('%s=vselect(%s,%s,%s,%d,%d)' % (d, c, a, b, t[1], bits(t[2])))
            else:
                out.append('%s=vselect1(%s,%s,%s,%d,%d)' % (d, c, a, b, t[1], bits(t[2])))
            return
        out.append('c=%s' % c)
        out.append('%s=(%s if c else %s) if type(c) is int else SEL(c,%s,%s,%d)' % (d, a, b, a, b, bits(t)))

    def i_phi(self, p, dst, out):
        self.flags(p)
        t = p.type()
        i = self.reg(dst, t)
        src = {}
        saved = self.uses
        while p.acc('['):
            self.uses = set()
            v = self.operand(p, t)
            p.exp(',')
            lab = p.next()[1:].strip('"')
            p.exp(']')
            b = self.bidx[lab]
            src[b] = v
            self.phiuse.setdefault((b, self.cur), set()).update(self.uses)
            p.acc(',')
        self.uses = saved
        self.phis[self.cur].append((i, t, src))

    def i_br(self, p, dst, out):
        if p.acc('label'):
            t = self.bidx[p.next()[1:].strip('"')]
            self.succ[self.cur].append(t)
            out.append('@@GOTO 0 %d' % t)
            return
        ty = p.type()
        c = self.operand(p, ty)
        p.exp(',')
        p.exp('label')
        a = self.bidx[p.next()[1:].strip('"')]
        p.exp(',')
        p.exp('label')
        b = self.bidx[p.next()[1:].strip('"')]
        self.succ[self.cur].append(a)
        if b != a:
            self.succ[self.cur].append(b)
        out.append('c=%s' % c)
        out.append('if type(c) is int:')
        out.append(' if c:')
        out.append('@@GOTO 2 %d' % a)
        out.append('@@GOTO 1 %d' % b)
        out.append('return (c,%d,%d,%d)' % (self.cur, a, b))

    def i_switch(self, p, dst, out):
        t = p.type()
        v = self.operand(p, t)
        p.exp(',')
        p.exp('label')
        dft = self.bidx[p.next()[1:].strip('"')]
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type()
            k = self.const(p, ct)
            p.exp(',')
            p.exp('label')
            cases.append((k, self.bidx[p.next()[1:].strip('"')]))
        for x in [dft] + [b for k, b in cases]:
            if x not in self.succ[self.cur]:
                self.succ[self.cur].append(x)
        out.append('c=%s' % v)
        out.append('if type(c) is int:')
        for k, b in cases:
            out.append(' if c==%d:' % k)
            out.append('@@GOTO 2 %d' % b)
        out.append('@@GOTO 1 %d' % dft)
        out.append('return (c,%d,%r,%d,%d)' % (self.cur, cases, dft, bits(t)))

    def i_ret(self, p, dst, out):
        t = p.type()
        if t[0] == 'void':
            out.append('return (None,None)')
        else:
            out.append('return (None,%s)' % self.operand(p, t))

    def i_unreachable(self, p, dst, out):
        out.append('E.unreachable(st)')
        out.append('return (None,None)')

    def i_alloca(self, p, dst, out):
        self.flags(p)
        p.acc('inalloca')
        t = p.type()
        n = '1'
        al = alignof(t)
        while p.acc(','):
            if p.acc('align'):
                al = int(p.next())
            else:
                nt = p.type()
                n = self.operand(p, nt)
        d = self.setreg(dst, ('ptr',))
        out.append('%s=E.alloca(st,%d,%s,%d,%d)' % (d, sizeof(t), n, al, gran_of(t)))

    def i_load(self, p, dst, out):
        atomic = False
        while p.peek() in ('volatile', 'atomic'):
            if p.next() == 'atomic':
                atomic = True
        t = p.type()
        p.exp(',')
        pt = p.type()
        a = self.operand(p, pt)
        al = 1
        while p.peek() is not None:
            if p.next() == 'align':
                al = int(p.next())
        d = self.setreg(dst, t)
        if t[0] == 'vec':
            out.append('%s=E.loadv(st,%s,%d,%d)' % (d, a, sizeof(t), al))
        elif t[0] in ('struct', 'arr'):
            out.append('%s=E.loadagg(st,%s,%s)' % (d, a, self.lit(t)))
        elif t == ('i', 1):
            out.append('%s=X.extract(E.load(st,%s,1),0,0)' % (d, a))
        elif t[0] == 'i' and t[1] % 8:
            out.append('%s=X.extract(E.load(st,%s,%d),%d,0)' % (d, a, sizeof(t), t[1] - 1))
        else:
            out.append('%s=E.load(st,%s,%d)' % (d, a, (bits(t)) // 8))

    def i_store(self, p, dst, out):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        v = self.operand(p, t)
        p.exp(',')
        pt = p.type()
        a = self.operand(p, pt)
        al = 1
        while p.peek() is not None:
            if p.next() == 'align':
                al = int(p.next())
        if t[0] == 'vec':
            if t[2] == ('i', 1):
                out.append('E.store(st,%s,vconcat(%s,%d,1),%d)' % (a, v, t[1], t[1] // 8))
            else:
                out.append('E.storev(st,%s,%s,%d,%d,%d)' % (a, v, t[1], sizeof(t[2]), al))
        elif t[0] in ('struct', 'arr'):
            out.append('E.storeagg(st,%s,%s,%s)' % (a, v, self.lit(t)))
        elif t[0] == 'i' and t[1] % 8:
            out.append('E.store(st,%s,X.zext(%s,%d,%d),%d)' % (a, v, t[1], sizeof(t) * 8, sizeof(t)))
        else:
            out.append('E.store(st,%s,%s,%d)' % (a, v, bits(t) // 8))

    def i_getelementptr(self, p, dst, out):
        self.flags(p)
        t = p.type()
        p.exp(',')
        bt = p.type()
        base = self.operand(p, bt)
        terms = []
        off = 0
        first = True
        vecn = bt[1] if bt[0] == 'vec' else None
        while p.acc(','):
            it = p.type()
            if it[0] == 'vec':
                raise SyntaxError('vector gep')
            e = self.operand(p, it)
            iw = it[1]
            if first:
                sc = sizeof(t)
                first = False
            else:
                if t[0] == 'struct':
                    o, t = fieldoff(t, int(e))
                    off += o
                    continue
                t = t[2]
                sc = sizeof(t)
            if re.match(r'-?\d+$', e):
                v = int(e)
                if v >> (iw - 1):
                    v -= 1 << iw
                off += v * sc
            else:
                terms.append((e, sc, iw))
        d = self.setreg(dst, ('ptr',))
        M = (1 << 64) - 1
        if not terms:
            if off == 0:
                out.append('%s=%s' % (d, base))
            else:
                out.append('a=%s' % base)
                out.append('%s=(a+%d)&%d if type(a) is int else X.add(a,%d,64)' % (d, off, M, off & M))
            return
        if len(terms) == 1 and terms[0][2] == 64:
            e, sc, iw = terms[0]
            out.append('a=%s;b=%s' % (base, e))
            out.append('%s=(a+b*%d+%d)&%d if type(a) is int and type(b) is int else X.add(X.add(a,X.mul(b,%d,64),64),%d,64)'
                       % (d, sc, off, M, sc, off & M))
            return
        out.append('a=X.add(%s,%d,64)' % (base, off & M))
        for e, sc, iw in terms:
            if iw < 64:
                e = 'X.sext(%s,%d,64)' % (e, iw)
            out.append('a=X.add(a,X.mul(%s,%d,64),64)' % (e, sc))
        out.append('%s=a' % d)

    def cast(self, op, p, dst, out):
        self.flags(p)
        t = p.type()
        a = self.operand(p, t)
        p.exp('to')
        u = p.type()
        d = self.setreg(dst, u)
        if op == 'bitcast':
            if t[0] != 'vec' and u[0] != 'vec':
                out.append('%s=%s' % (d, a))
            elif t[0] == 'vec' and u[0] == 'vec':
                out.append('%s=vbitcast(%s,%d,%d)' % (d, a, t[1], bits(t[2])))
            elif t[0] == 'vec':
                out.append('%s=vconcat(%s,%d,%d)' % (d, a, t[1], bits(t[2])))
            else:
                out.append('%s=LV([%s],%d)' % (d, a, bits(t)))
            return
        if op in ('ptrtoint', 'inttoptr'):
            op = 'trunc' if bits(u) < bits(t) else 'zext'
        if t[0] == 'vec':
            out.append('%s=vcast(%r,%s,%d,%d,%d)' % (d, op, a, t[1], bits(t[2]), bits(u[2])))
            return
        fw, tw = bits(t), bits(u)
        if op == 'trunc':
            out.append('a=%s' % a)
            out.append('%s=a&%d if type(a) is int else X.extract(a,%d,0)' % (d, (1 << tw) - 1, tw - 1))
        elif op == 'zext':
            out.append('a=%s' % a)
            if fw == 1:
                out.append('%s=a if type(a) is int else ZX(a,%d)' % (d, tw))
            else:
                out.append('%s=a if type(a) is int else X.zext(a,%d,%d)' % (d, fw, tw))
        elif op == 'sext':
            out.append('%s=X.sext(%s,%d,%d)' % (d, a, fw, tw))
        else:
            out.append('%s=fcast(%r,%s,%d,%d)' % (d, op, a, fw, tw))

    def i_shufflevector(self, p, dst, out):
        t = p.type()
        a = self.operand(p, t)
        p.exp(',')
        p.type()
        b = self.operand(p, t)
        p.exp(',')
        mt = p.type()
        mask = self.const(p, mt)
        d = self.setreg(dst, ('vec', mt[1], t[2]))
        out.append('%s=vshuffle(%s,%s,%s,%d,%d)' % (d, a, b, self.lit(list(mask)), t[1], bits(t[2])))

    def i_insertelement(self, p, dst, out):
        t = p.type()
        a = self.operand(p, t)
        p.exp(',')
        et = p.type()
        e = self.operand(p, et)
        p.exp(',')
        it = p.type()
        i = self.operand(p, it)
        out.append('%s=vinsert(%s,%s,%s,%d,%d)' % (self.setreg(dst, t), a, e, i, t[1], bits(t[2])))

    def i_extractelement(self, p, dst, out):
        t = p.type()
        a = self.operand(p, t)
        p.exp(',')
        it = p.type()
        i = self.operand(p, it)
        out.append('%s=vextract(%s,%s,%d,%d)' % (self.setreg(dst, t[2]), a, i, t[1], bits(t[2])))

    def i_extractvalue(self, p, dst, out):
        t = p.type()
        a = self.operand(p, t)
        u = t
        e = a
        while p.acc(','):
            k = int(p.next())
            e += '[%d]' % k
            u = u[1][k] if u[0] == 'struct' else u[2]
        out.append('%s=%s' % (self.setreg(dst, u), e))

    def i_insertvalue(self, p, dst, out):
        t = p.type()
        a = self.operand(p, t)
        p.exp(',')
        et = p.type()
        e = self.operand(p, et)
        p.exp(',')
        k = int(p.next())
        out.append('%s=insval(%s,%s,%d,%d)' % (self.setreg(dst, t), a, e, k, len(t[1])))

    def i_fence(self, p, dst, out):
        pass

    def i_atomicrmw(self, p, dst, out):
        p.acc('volatile')
        op = p.next()
        pt = p.type()
        a = self.operand(p, pt)
        p.exp(',')
        t = p.type()
        v = self.operand(p, t)
        out.append('%s=E.atomicrmw(st,%r,%s,%s,%d)' % (self.setreg(dst, t), op, a, v, bits(t)))
        self.hascall[self.cur] = True

    def i_cmpxchg(self, p, dst, out):
        p.acc('weak')
        p.acc('volatile')
        pt = p.type()
        a = self.operand(p, pt)
        p.exp(',')
        t = p.type()
        v = self.operand(p, t)
        p.exp(',')
        t = p.type()
        n = self.operand(p, t)
        out.append('%s=E.cmpxchg(st,%s,%s,%s,%d)' % (self.setreg(dst, ('struct', (t, ('i', 1)), False)), a, v, n, bits(t)))
        self.hascall[self.cur] = True

    def i_call(self, p, dst, out):
        self._skipattrs(p)
        while p.peek() in ('fastcc', 'ccc', 'coldcc') or (p.peek() == 'cc'):
            if p.next() == 'cc':
                p.next()
        self._skipattrs(p)
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        tok = p.next()
        if tok == 'asm':
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            a = p.next()
            p.exp(',')
            c = p.next()
            args = self.callargs(p)
            s = 'E.asm(st,%r,%r,[%s])' % (a, c, ','.join(x for x, t in args))
            if dst:
                s = '%s=%s' % (self.setreg(dst, rt), s)
            out.append(s)
            self.hascall[self.cur] = True
            return
        if tok[0] == '%':
            fn = 'R[%d]' % self.reg(tok, None)
            self.uses.add(self.regs[tok])
            direct = None
        elif tok[0] == '@':
            direct = tok[1:].strip('"')
        else:
            raise SyntaxError('call target ' + tok)
        args = self.callargs(p)
        al = '[%s]' % ','.join(x for x, t in args)
        if direct and direct.startswith('llvm.'):
            r = self.intrinsic(direct, args, rt, dst)
            if r is None:
                return
            s = r
            if dst:
                s = '%s=%s' % (self.setreg(dst, rt), s)
            out.append(s)
            return
        self.hascall[self.cur] = True
        if direct:
            s = 'E.calln(st,%r,%s)' % (direct, al)
        else:
            s = 'E.callp(st,%s,%s)' % (fn, al)
        if dst:
            s = '%s=%s' % (self.setreg(dst, rt), s)
        out.append(s)

    def callargs(self, p):
        p.exp('(')
        args = []
        while not p.acc(')'):
            t = p.type()
            self._skipattrs(p)
            if t[0] == 'metadata':
                p.next()
                args.append(('None', t))
            else:
                args.append((self.operand(p, t), t))
            p.acc(',')
        return args

    def intrinsic(self, name, args, rt, dst):
        a = [x for x, t in args]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.x86.sse2.pause',
                            'llvm.stackrestore', 'llvm.prefetch')):
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.hascall[self.cur] = True
            return 'E.memcpy(st,%s,%s,%s)' % (a[0], a[1], a[2])
        if name.startswith('llvm.memset'):
            self.hascall[self.cur] = True
            return 'E.memset(st,%s,%s,%s)' % (a[0], a[1], a[2])
        base = re.sub(r'\.(v\d+)?[if]\d+$', '', name)
        if rt[0] == 'vec':
            n, w = rt[1], bits(rt[2])
        elif rt[0] in ('i', 'f', 'ptr'):
            n, w = 0, bits(rt)
        else:
            n, w = 0, 0
        at = args[0][1] if args else None
        aw = bits(at[2]) if at and at[0] == 'vec' else (bits(at) if at and at[0] in ('i', 'f', 'ptr') else 0)
        an = at[1] if at and at[0] == 'vec' else 0
        return 'intrin(E,st,%r,[%s],%d,%d,%d,%d)' % (name, ','.join(a), n, w, an, aw)


def gran_of(t):
    """natural cell granularity of a type"""
    k = t[0]
    if k in ('i', 'f', 'ptr'):
        s = sizeof(t)
        return s if s in (1, 2, 4, 8) else (2 if s % 2 == 0 else 1)
    if k in ('vec', 'arr'):
        return gran_of(t[2])
    if k == 'struct':
        g = 8
        for i in range(len(t[1])):
            o, e = fieldoff(t, i)
            x = gran_of(e)
            g = min(g, x)
            while o % g:
                g //= 2
        s = sizeof(t)
        while s % g:
            g //= 2
        return max(g, 1)
    return 1


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


class GAddr(object):
    """address of a global plus offset, resolved at codegen namespace creation"""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name
        self.off = off


UNDEF = object()


def parse_const(p, t, mod, tok=None):
    """returns int / list (vectors) / tuple (aggregates) / GAddr / 'undef' marker"""
    if tok is None:
        tok = p.next()
    k = t[0]
    if tok[0] == '@':
        return GAddr(tok[1:].strip('"'))
    if tok in ('undef', 'poison', 'zeroinitializer', 'null', 'none'):
        if k == 'vec':
            return [0] * t[1]
        if k == 'arr':
            return tuple(zero(t[2]) for _ in range(t[1])) if t[1] < 5000 else ('Z', t)
        if k == 'struct':
            return tuple(zero(e) for e in t[1])
        return 0
    if tok == 'true':
        return 1
    if tok == 'false':
        return 0
    if k == 'i' and re.match(r'-?\d+$', tok):
        return int(tok) & ((1 << t[1]) - 1)
    if k == 'f':
        return fconst(tok, t[1])
    if tok == '<':
        if k == 'struct':
            p.exp('{')
            r = []
            while not p.acc('}'):
                et = p.type()
                r.append(parse_const(p, et, mod))
                p.acc(',')
            p.exp('>')
            return tuple(r)
        r = []
        while not p.acc('>'):
            et = p.type()
            r.append(parse_const(p, et, mod))
            p.acc(',')
        return r
    if tok == '[':
        r = []
        while not p.acc(']'):
            et = p.type()
            r.append(parse_const(p, et, mod))
            p.acc(',')
        return tuple(r)
    if tok == '{':
        r = []
        while not p.acc('}'):
            et = p.type()
            r.append(parse_const(p, et, mod))
            p.acc(',')
        return tuple(r)
    if tok[0] == 'c' and tok[1:2] == '"':
        s = tok[2:-1]
        b = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    b.append(92)
                    i += 2
                else:
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                b.append(ord(s[i]))
                i += 1
        return tuple(b)
    if tok == 'getelementptr':
        p.acc('inbounds')
        while p.peek() != '(':
            p.next()
        p.exp('(')
        bt = p.type()
        p.exp(',')
        pt = p.type()
        base = parse_const(p, pt, mod)
        off = 0
        first = True
        tt = bt
        while p.acc(','):
            p.acc('inrange')
            it = p.type()
            v = parse_const(p, it, mod)
            if v >> (it[1] - 1):
                v -= 1 << it[1]
            if first:
                off += v * sizeof(tt)
                first = False
            elif tt[0] == 'struct':
                o, tt = fieldoff(tt, v)
                off += o
            else:
                tt = tt[2]
                off += v * sizeof(tt)
        p.exp(')')
        if isinstance(base, GAddr):
            return GAddr(base.name, base.off + off)
        return (base + off) & ((1 << 64) - 1)
    if tok in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
        p.exp('(')
        ft = p.type()
        v = parse_const(p, ft, mod)
        p.exp('to')
        p.type()
        p.exp(')')
        return v
    raise SyntaxError('const %s of %r in %s' % (tok, t, ' '.join(p.t)[:300]))


def zero(t):
    k = t[0]
    if k == 'vec':
        return [0] * t[1]
    if k == 'arr':
        return tuple(zero(t[2]) for _ in range(t[1])) if t[1] < 5000 else ('Z', t)
    if k == 'struct':
        return tuple(zero(e) for e in t[1])
    return 0
