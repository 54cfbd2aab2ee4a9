"""Symbolic executor for LLVM IR with state merging at immediate post-dominators."""
import sys
import time
import z3
from . import ex as X
from . import llir
from . import vec
from .ex import Node, MASK

sys.setrecursionlimit(200000)
M64 = (1 << 64) - 1
PAGE = 12


class PathDead(Exception):
    pass


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Obj(object):
    __slots__ = ('id', 'base', 'size', 'gran', 'cells', 'name', 'tok', 'freed', 'ro', 'kind')

    def clone(self, tok):
        o = Obj()
        o.id = self.id
        o.base = self.base
        o.size = self.size
        o.gran = self.gran
        o.cells = list(self.cells)
        o.name = self.name
        o.tok = tok
        o.freed = self.freed
        o.ro = self.ro
        o.kind = self.kind
        return o


class State(object):
    __slots__ = ('mem', 'tok', 'pc')

    def __init__(self):
        self.mem = {}
        self.tok = object()
        self.pc = 1


class Engine(object):
    Unsupported = Unsupported

    def __init__(self, mod, budget_blocks=50_000_000, deadline=None):
        self.mod = mod
        self.pages = {}
        self.gobjs = {}
        self.gaddrs = {}
        self.faddrs = {}
        self.fnames = {}
        self.nextfn = 0x10000
        self.nextobj = 0x10_0000_0000
        self.nid = 0
        self.ext = {}
        self.stack = []
        self.pcs = []
        self.solver = z3.SolverFor('QF_UFBV')
        self.solver.set('timeout', 20000)
        self.synced = []
        self.problems = []        # (kind, message, pc, model)
        self.events = []
        self.trace = None          # access trace hook: f(kind, addr, n, st)
        self.watch = set()
        self.nblocks = 0
        self.budget = budget_blocks
        self.deadline = deadline
        self.queries = 0
        self.qtime = 0.0
        self.forks = 0
        self.funcs_used = set()
        self.assume = []           # permanent assumptions (guards)
        self.stop_on_problem = False
        self.on_atomic = None
        self.fastcalls = {}
        self.override = {}
        self.path = None           # PathExplorer: follow single paths instead of merging
        self.symstore = None       # f(E, st, addr, v, n) -> True when it took care of a store to a symbolic address
        self.symalloc = None       # f(st, size) -> address of a buffer of symbolic size
        self.indirect = None       # f(E, st, name, args) -> None or (result,) for calls through pointers
        self.nsbase = dict(X=X, SEL=self.select, ZX=self.zext1, fop=vec.fop, fneg=vec.fneg, fcast=vec.fcast, icmp=vec.icmp, fcmp=vec.fcmp, vbin=vec.vbin,
                           vun=vec.vun, vicmp=vec.vicmp, vfcmp=vec.vfcmp, vselect=vec.vselect, vselect1=vec.vselect1,
                           vcast=vec.vcast, vshuffle=vec.vshuffle, vinsert=vec.vinsert, vextract=vec.vextract,
                           insval=vec.insval, vbitcast=vec.vbitcast, vconcat=vec.vconcat, LV=vec.LV, intrin=vec.intrin)

    # ------------------------------------------------------------ memory
    def newobj(self, st, size, gran=8, name='', off=0, init=None, glob=False, kind='heap'):
        """allocate; off = misalignment of the base relative to 64 bytes"""
        base = self.nextobj + off
        self.nextobj = ((base + size) >> PAGE << PAGE) + (1 << 24)
        self.nid += 1
        o = Obj()
        o.id = self.nid
        o.base = base
        o.size = size
        while size % gran:
            gran //= 2
        o.gran = gran
        n = size // gran
        if init is None:
            o.cells = [None] * n
        elif init == 0:
            o.cells = [0] * n
        else:
            o.cells = list(init)
        o.name = name
        o.freed = 0
        o.ro = False
        o.kind = kind
        for p in range(base >> PAGE, ((base + max(size, 1) - 1) >> PAGE) + 1):
            self.pages[p] = o.id
        if glob:
            o.tok = None
            self.gobjs[o.id] = o
        else:
            o.tok = st.tok
            st.mem[o.id] = o
        return base

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gobjs.get(oid)
            if o is not None:
                st.mem[oid] = o
        return o

    def objat(self, st, addr):
        oid = self.pages.get(addr >> PAGE)
        if oid is None:
            return None
        return self.obj(st, oid)

    def wobj(self, st, o):
        if o.tok is not st.tok:
            o = o.clone(st.tok)
            st.mem[o.id] = o
        return o

    def regran(self, st, o, g):
        """make granularity g (smaller, divides)"""
        o = self.wobj(st, o)
        k = o.gran // g
        out = []
        w = g * 8
        for c in o.cells:
            if c is None:
                out.extend([None] * k)
            elif type(c) is int:
                m = MASK[w]
                out.extend([(c >> (i * w)) & m for i in range(k)])
            else:
                out.extend([X.extract(c, i * w + w - 1, i * w) for i in range(k)])
        o.cells = out
        o.gran = g
        return o

    def cell(self, st, o, i):
        c = o.cells[i]
        if c is None:
            o = self.wobj(st, o)
            c = X.fresh('uninit_%s_%d' % (o.name, i * o.gran), o.gran * 8)
            o.cells[i] = c
        return c

    def where(self):
        return ' < '.join(reversed(self.stack[-4:]))

    def problem(self, st, kind, msg, cond=1, fatal=True):
        """report a problem reachable under the current path and cond"""
        r, m = self.query(cond)
        if r == 'unsat':
            return False
        self.problems.append(dict(kind=kind, msg=msg, where=self.where(), result=r, model=m))
        return True

    def bad(self, st, addr, n, what, o=None):
        self.problem(st, 'oob', '%s of %d bytes at %s (%s)' % (
            what, n, hex(addr) if type(addr) is int else 'symbolic',
            'no object' if o is None else '%s base+%d of size %d%s' % (o.name, addr - o.base, o.size, ' freed' if o.freed else '')))
        raise PathDead('oob')

    def load(self, st, addr, n):
        if type(addr) is int:
            oid = self.pages.get(addr >> PAGE)
            if oid is None:
                self.bad(st, addr, n, 'read')
            o = st.mem.get(oid)
            if o is None:
                o = self.obj(st, oid)
                if o is None:
                    self.bad(st, addr, n, 'read of dead object')
            off = addr - o.base
            if off < 0 or off + n > o.size or o.freed == 1:
                self.bad(st, addr, n, 'read', o)
            if self.trace and oid in self.watch:
                self.trace('r', addr, n, st, o)
                o = st.mem[oid]
            g = o.gran
            if g == n and off % n == 0:
                c = o.cells[off // n]
                if c is None:
                    c = self.cell(st, o, off // n)
                return c
            return self.load_slow(st, o, off, n)
        return self.load_sym(st, addr, n)

    def load_slow(self, st, o, off, n):
        g = o.gran
        if n % g == 0 and off % g == 0:
            i = off // g
            return X.concat([(self.cell(st, st.mem.get(o.id, o), i + k), g * 8) for k in range(n // g)])
        if g % n == 0 and off % n == 0 and o.gran > n:
            i = off // g
            c = self.cell(st, o, i)
            s = (off % g) * 8
            return X.extract(c, s + n * 8 - 1, s)
        ng = g
        while off % ng or n % ng:
            ng //= 2
        o = self.regran(st, o, ng)
        return self.load_slow(st, o, off, n)

    def loadv(self, st, addr, n, al):
        if type(addr) is not int:
            cs = self.resolve(st, addr, n)
            res = None
            for g, o, off in reversed(cs):
                v = self.loadv(st, o.base + off, n, al)
                v = vec.relane(v.l, v.w, 8)
                res = v if res is None else [X.ite(g, x, y, 8) for x, y in zip(v, res)]
            return vec.LV(res, 8)
        oid = self.pages.get(addr >> PAGE)
        o = self.obj(st, oid) if oid is not None else None
        if o is None:
            self.bad(st, addr, n, 'vector read')
        off = addr - o.base
        if off < 0 or off + n > o.size or o.freed == 1:
            self.bad(st, addr, n, 'vector read', o)
        if al >= 16 and addr % al:
            self.misaligned(st, addr, n, al, 'read')
        if self.trace and oid in self.watch:
            self.trace('r', addr, n, st, o)
            o = st.mem[oid]
        g = o.gran
        if off % g or n % g:
            ng = g
            while off % ng or n % ng:
                ng //= 2
            o = self.regran(st, o, ng)
            g = ng
        i = off // g
        cs = o.cells[i:i + n // g]
        if None in cs:
            cs = [self.cell(st, self.obj(st, oid), i + k) for k in range(n // g)]
        return vec.LV(cs, g * 8)

    def misaligned(self, st, addr, n, al, what):
        self.problem(st, 'align', 'aligned %d-byte vector %s at address = %d mod %d' % (n, what, addr % al, al))

    def store(self, st, addr, v, n):
        if type(addr) is int:
            oid = self.pages.get(addr >> PAGE)
            if oid is None:
                self.bad(st, addr, n, 'write')
            o = st.mem.get(oid)
            if o is None:
                o = self.obj(st, oid)
                if o is None:
                    self.bad(st, addr, n, 'write to dead object')
            off = addr - o.base
            if off < 0 or off + n > o.size or o.freed == 1 or o.ro:
                self.bad(st, addr, n, 'write', o)
            if o.tok is not st.tok:
                o = self.wobj(st, o)
            if self.trace and oid in self.watch:
                self.trace('w', addr, n, st, o)
            if o.gran == n and off % n == 0:
                o.cells[off // n] = v
                return
            g = o.gran
            while off % g or n % g:
                g //= 2
            if g != o.gran:
                o = self.regran(st, o, g)
            i = off // g
            w = g * 8
            for k in range(n // g):
                o.cells[i + k] = X.extract(v, k * w + w - 1, k * w)
            return
        if self.symstore is not None and self.symstore(self, st, addr, v, n):
            return
        for g, o, off in self.resolve(st, addr, n, True):
            self.gstore(st, g, o.base + off, v, n)

    def storev(self, st, addr, v, n, es, al):
        if type(addr) is not int:
            for g, o, off in self.resolve(st, addr, n * es, True):
                l = vec.L(v, n, es * 8)
                for k in range(n):
                    self.gstore(st, g, o.base + off + k * es, l[k], es)
            return
        tot = n * es
        oid = self.pages.get(addr >> PAGE)
        o = self.obj(st, oid) if oid is not None else None
        if o is None:
            self.bad(st, addr, tot, 'vector write')
        off = addr - o.base
        if off < 0 or off + tot > o.size or o.freed == 1 or o.ro:
            self.bad(st, addr, tot, 'vector write', o)
        if al >= 16 and addr % al:
            self.misaligned(st, addr, tot, al, 'write')
        o = self.wobj(st, o)
        if self.trace and oid in self.watch:
            self.trace('w', addr, tot, st, o)
        g = o.gran
        if off % g or tot % g:
            ng = g
            while off % ng or tot % ng:
                ng //= 2
            o = self.regran(st, o, ng)
            g = ng
        if type(v) is list:
            l = vec.relane(v, es * 8, g * 8)
        else:
            l = vec.relane(v.l, v.w, g * 8)
        i = off // g
        o.cells[i:i + tot // g] = l

    def loadagg(self, st, addr, t):
        if t[0] == 'struct':
            return tuple(self._ldel(st, X.add(addr, llir.fieldoff(t, i)[0], 64), e) for i, e in enumerate(t[1]))
        s = llir.sizeof(t[2])
        return tuple(self._ldel(st, X.add(addr, i * s, 64), t[2]) for i in range(t[1]))

    def _ldel(self, st, a, e):
        if e[0] in ('struct', 'arr'):
            return self.loadagg(st, a, e)
        return self.load(st, a, llir.bits(e) // 8)

    def storeagg(self, st, addr, v, t):
        if t[0] == 'struct':
            els = [(llir.fieldoff(t, i)[0], e) for i, e in enumerate(t[1])]
        else:
            s = llir.sizeof(t[2])
            els = [(i * s, t[2]) for i in range(t[1])]
        for (o, e), x in zip(els, v):
            if e[0] in ('struct', 'arr'):
                self.storeagg(st, X.add(addr, o, 64), x, e)
            else:
                self.store(st, X.add(addr, o, 64), x, llir.bits(e) // 8)

    # ---- symbolic addresses
    def resolve(self, st, addr, n, write=False):
        """list of (guard, obj, off) mutually exclusive, in bounds; reports oob otherwise"""
        out = []
        if addr.op == 'vs':
            live = []
            for v, g in addr.a:
                oid = self.pages.get(v >> PAGE)
                o = self.obj(st, oid) if oid is not None else None
                if o is None or v < o.base or v + n > o.base + o.size or o.freed == 1:
                    if self.problem(st, 'oob', '%s of %d bytes at %s' % (
                            'write' if write else 'read', n,
                            'no object' if o is None else '%s base+%d of size %d' % (o.name, v - o.base, o.size)), g):
                        self.narrow(st, X.bnot(g))
                    continue
                out.append((g, o, v - o.base))
            if not out:
                raise PathDead('oob')
            return out
        cond0 = 1
        rest = addr
        done = 1
        for _ in range(6):
            r, m = self.query(done, want=rest)
            if r == 'unsat':
                break
            if r != 'sat':
                raise Unsupported('solver gave up on symbolic address')
            v = m['@']
            oid = self.pages.get(v >> PAGE)
            o = self.obj(st, oid) if oid is not None else None
            if o is None or v < o.base or v + n > o.base + o.size or o.freed == 1:
                # nearest object for message
                self.problems.append(dict(kind='oob', msg='%s of %d bytes at symbolic address (%s)' % (
                    'write' if write else 'read', n,
                    'no object' if o is None else '%s base+%d of size %d' % (o.name, v - o.base, o.size)),
                    where=self.where(), result='sat', model=m))
                # restrict to in-bounds of known objects: find the object from in-bound models
                okc = 0
                for oid2 in set(self.pages.values()):
                    o2 = self.obj(st, oid2)
                    if o2 is not None and o2.kind == 'data' and o2.size >= n:
                        okc = X.bor(okc, X.ule(X.sub(addr, o2.base, 64), o2.size - n, 64))
                self.narrow(st, okc)
                continue
            inb = X.ule(X.sub(addr, o.base, 64), o.size - n, 64)
            step = n
            while step > 1:
                r2, _ = self.query(X.balls([done, inb, X.bnot(X.eq(X.extract(X.sub(addr, o.base, 64), step.bit_length() - 2, 0), 0,
                                                                          step.bit_length() - 1))]), model=False)
                if r2 == 'unsat' and step & (step - 1) == 0:
                    break
                step //= 2
            if (o.size - n) // step > 4096:
                raise Unsupported('symbolic address over large object')
            for off in range(0, o.size - n + 1, step):
                out.append((X.eq(addr, o.base + off, 64), o, off))
            done = X.band(done, X.bnot(inb))
        else:
            raise Unsupported('symbolic address over many objects')
        if not out:
            raise PathDead('no address')
        return out

    def load_sym(self, st, addr, n):
        cs = self.resolve(st, addr, n)
        res = None
        for g, o, off in reversed(cs):
            v = self.load(st, o.base + off, n)
            res = v if res is None else X.ite(g, v, res, n * 8)
        return res

    def gload(self, st, g, addr, n, dflt):
        if type(g) is int:
            return self.load(st, addr, n) if g else dflt
        # guarded access: only touches memory when g
        st2 = self.forkstate(st, g)
        self.pcs.append(g)
        try:
            v = self.load(st2, addr, n)
        except PathDead:
            v = dflt
        finally:
            self.pcs.pop()
        for k, o in st2.mem.items():      # keep lazily created cells
            if k not in st.mem:
                st.mem[k] = o
        return X.ite(g, v, dflt, n * 8)

    def gstore(self, st, g, addr, v, n):
        if type(g) is int:
            if g:
                self.store(st, addr, v, n)
            return
        if type(addr) is not int:
            for g2, o, off in self.resolve(st, addr, n, True):
                self.gstore(st, X.band(g, g2), o.base + off, v, n)
            return
        old = self.load(st, addr, n)
        self.store(st, addr, X.ite(g, v, old, n * 8), n)

    def alloca(self, st, size, n, al, gran):
        if type(n) is not int:
            if self.symalloc is not None:
                return self.symalloc(st, X.mul(n, size, 64))
            raise Unsupported('symbolic alloca')
        return self.newobj(st, max(size * n, 1), gran, 'stack:' + (self.stack[-1] if self.stack else ''), kind='stack')

    def memcpy(self, st, d, s, n):
        if type(n) is not int:
            if n.op == 'vs':
                for v, g in n.a:
                    if v:
                        self._memcpy_g(st, g, d, s, v)
                return
            raise Unsupported('memcpy of symbolic length')
        if n == 0:
            return
        if type(d) is int and type(s) is int:
            od = self.objat(st, d)
            os_ = self.objat(st, s)
            if od is None or d < od.base or d + n > od.base + od.size or od.freed == 1:
                self.bad(st, d, n, 'memcpy write', od)
            if os_ is None or s < os_.base or s + n > os_.base + os_.size or os_.freed == 1:
                self.bad(st, s, n, 'memcpy read', os_)
            g = os_.gran
            while (s - os_.base) % g or n % g:
                g //= 2
            if g != os_.gran:
                os_ = self.regran(st, os_, g)
                od = self.objat(st, d)
            gd = od.gran
            while (d - od.base) % gd or n % gd:
                gd //= 2
            if gd != od.gran:
                od = self.regran(st, od, gd)
                os_ = self.objat(st, s)
            if self.trace:
                if os_.id in self.watch:
                    self.trace('r', s, n, st, os_)
                if od.id in self.watch:
                    self.trace('w', d, n, st, od)
            i = (s - os_.base) // g
            cs = [self.cell(st, self.obj(st, os_.id), i + k) for k in range(n // g)]
            od = self.wobj(st, self.obj(st, od.id))
            cs = vec.relane(cs, g * 8, gd * 8)
            j = (d - od.base) // gd
            od.cells[j:j + len(cs)] = cs
            return
        bs = [self.load(st, X.add(s, i, 64), 1) for i in range(n)]
        for i in range(n):
            self.store(st, X.add(d, i, 64), bs[i], 1)

    def _memcpy_g(self, st, g, d, s, n):
        for i in range(n):
            v = self.gload(st, g, X.add(s, i, 64), 1, 0)
            self.gstore(st, g, X.add(d, i, 64), v, 1)

    def memset(self, st, d, v, n):
        if type(n) is not int:
            if n.op == 'vs':
                for k, g in n.a:
                    for i in range(k):
                        self.gstore(st, g, X.add(d, i, 64), v, 1)
                return
            raise Unsupported('memset of symbolic length')
        if n == 0:
            return
        if type(d) is int:
            o = self.objat(st, d)
            if o is None or d < o.base or d + n > o.base + o.size or o.freed == 1:
                self.bad(st, d, n, 'memset', o)
            g = o.gran
            while (d - o.base) % g or n % g:
                g //= 2
            if g != o.gran:
                o = self.regran(st, o, g)
            o = self.wobj(st, o)
            if self.trace and o.id in self.watch:
                self.trace('w', d, n, st, o)
            c = X.concat([(v, 8)] * g)
            i = (d - o.base) // g
            o.cells[i:i + n // g] = [c] * (n // g)
            return
        for i in range(n):
            self.store(st, X.add(d, i, 64), v, 1)

    def atomicrmw(self, st, op, addr, v, w):
        if self.on_atomic:
            self.on_atomic(st, op, addr, v, w)
        old = self.load(st, addr, w // 8)
        new = {'add': lambda: X.add(old, v, w), 'sub': lambda: X.sub(old, v, w), 'xchg': lambda: v,
               'and': lambda: X.and_(old, v, w), 'or': lambda: X.or_(old, v, w), 'xor': lambda: X.xor(old, v, w),
               'max': lambda: vec.smax(old, v, w), 'min': lambda: vec.smin(old, v, w),
               'umax': lambda: vec.umax(old, v, w), 'umin': lambda: vec.umin(old, v, w)}[op]()
        self.store(st, addr, new, w // 8)
        return old

    def cmpxchg(self, st, addr, cmp_, new, w):
        if self.on_atomic:
            self.on_atomic(st, 'cmpxchg', addr, (cmp_, new), w)
        old = self.load(st, addr, w // 8)
        ok = X.eq(old, cmp_, w)
        self.store(st, addr, X.ite(ok, new, old, w), w // 8)
        return (old, ok)

    def div(self, st, op, a, b, w):
        z = X.eq(b, 0, w)
        if not (type(z) is int and z == 0):
            if self.problem(st, 'div0', '%s by zero' % op, z):
                self.narrow(st, X.bnot(z))
                if type(b) is int:
                    raise PathDead('div0')
        if op in ('sdiv', 'srem'):
            ov = X.band(X.eq(b, MASK[w], w), X.eq(a, 1 << (w - 1), w))
            if w in (32, 64) and not (type(ov) is int and ov == 0):
                if self.problem(st, 'divov', 'signed division overflow', ov):
                    self.narrow(st, X.bnot(ov))
                    if type(ov) is int:
                        raise PathDead('divov')
        return getattr(X, op)(a, b, w)

    def unreachable(self, st):
        raise PathDead('unreachable')

    def rdtsc(self, st):
        return 12345

    def asm(self, st, a, c, args):
        h = self.ext.get('asm')
        if h:
            return h(self, st, a, c, args)
        raise Unsupported('inline asm ' + a)

    # ------------------------------------------------------------ globals / functions
    def faddr(self, name):
        a = self.faddrs.get(name)
        if a is None:
            a = self.nextfn
            self.nextfn += 16
            self.faddrs[name] = a
            self.fnames[a] = name
        return a

    def gaddr(self, name):
        a = self.gaddrs.get(name)
        if a is not None:
            return a
        if name in self.mod.funcsrc or name in self.mod.decls:
            return self.faddr(name)
        src = self.mod.globals.get(name)
        if src is None:
            raise Unsupported('global ' + name)
        toks = llir.tokenize(src)
        p = llir.P(toks, self.mod)
        ext = False
        const = False
        while True:
            t = p.next()
            if t in ('external', 'extern_weak'):
                ext = True
            if t in ('global', 'constant'):
                const = t == 'constant'
                break
            if t == 'alias':
                p.type()
                p.exp(',')
                p.type()
                a = self.gaddr(p.next()[1:])
                self.gaddrs[name] = a
                return a
            if t == 'thread_local' and p.peek() == '(':
                while p.next() != ')':
                    pass
            if t == 'addrspace':
                while p.next() != ')':
                    pass
        ty = p.type()
        if ext:
            size = 1024 if ty[0] == 'opaque' else max(llir.sizeof(ty), 1024)
            a = self.newobj(None, size, 8, name, glob=True, init=0, kind='global')
            self.gaddrs[name] = a
            return a
        size = llir.sizeof(ty)
        g = llir.gran_of(ty)
        a = self.newobj(None, max(size, 1), g, name, glob=True, init=0, kind='global')
        self.gaddrs[name] = a
        init = llir.parse_const(p, ty, self.mod)
        o = self.gobjs[self.pages[a >> PAGE]]
        self._fill(o, 0, ty, init)
        if const:
            o.ro = True
        return a

    def _fill(self, o, off, t, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'Z':
            return
        k = t[0]
        if k == 'struct':
            for i, e in enumerate(t[1]):
                self._fill(o, off + llir.fieldoff(t, i)[0], e, v[i])
            return
        if k in ('arr', 'vec'):
            s = llir.sizeof(t[2])
            for i in range(t[1]):
                self._fill(o, off + i * s, t[2], v[i])
            return
        if isinstance(v, llir.GAddr):
            v = (self.gaddr(v.name) + v.off) & M64
        if v == 0:
            return
        n = llir.bits(t) // 8 if llir.bits(t) >= 8 else 1
        g = o.gran
        for i in range(n // g):
            o.cells[(off // g) + i] = (v >> (i * g * 8)) & MASK[g * 8]

    def resolve_const(self, v):
        if isinstance(v, llir.GAddr):
            return (self.gaddr(v.name) + v.off) & M64
        if isinstance(v, tuple) and not (v and isinstance(v[0], str)):
            return tuple(self.resolve_const(x) for x in v)
        if isinstance(v, list):
            return [self.resolve_const(x) for x in v]
        return v

    def codens(self, K):
        ns = dict(self.nsbase)
        ns['K'] = LazyK(self, K)
        return ns

    def fn_of(self, addr):
        return self.fnames.get(addr)

    def callp(self, st, fp, args):
        if type(fp) is int:
            name = self.fnames.get(fp)
            if name is None:
                self.problem(st, 'badcall', 'indirect call through %s' % hex(fp))
                raise PathDead('badcall')
            if self.indirect is not None:
                r = self.indirect(self, st, name, args)
                if r is not None:
                    return r[0]
            return self.calln(st, name, args)
        if fp.op != 'vs':
            raise Unsupported('call through symbolic pointer')
        # fork over targets
        items = [(g, v) for v, g in fp.a]
        return self.forkcall(st, items, args)

    def forkcall(self, st, items, args):
        g, v = items[0]
        if len(items) == 1:
            return self.callp(st, v, args)
        return self.fork(st, g, lambda s: self.callp(s, v, args), lambda s: self.forkcall(s, items[1:], args))

    def fork(self, st, c, fa, fb, w=64):
        """generic fork for handlers: run fa under c, fb under not c; merge scalar results"""
        if type(c) is int:
            return fa(st) if c else fb(st)
        if self.path is not None:
            if self.path.take(c):
                self.narrow(st, c)
                return fa(st)
            self.narrow(st, X.bnot(c))
            return fb(st)
        sa = self.forkstate(st, c)
        sb = self.forkstate(st, X.bnot(c))
        ra = rb = None
        da = db = False
        self.pcs.append(c)
        try:
            if not self.feasible():
                da = True
            else:
                ra = fa(sa)
        except PathDead:
            da = True
        finally:
            del self.pcs[len(self.pcs) - 1:]
        self.pcs.append(X.bnot(c))
        try:
            if not self.feasible():
                db = True
            else:
                rb = fb(sb)
        except PathDead:
            db = True
        finally:
            self.pcs.pop()
        if da and db:
            raise PathDead('both')
        if da:
            self.adopt(st, sb)
            self.narrow(st, X.bnot(c))
            return rb
        if db:
            self.adopt(st, sa)
            self.narrow(st, c)
            return ra
        self.merge(st, c, sa, sb)
        return self.mergeval(c, ra, rb, w)

    def mergeval(self, c, a, b, w):
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, tuple):
            return tuple(self.mergeval(c, x, y, w) for x, y in zip(a, b))
        ww = a.w if isinstance(a, Node) else b.w if isinstance(b, Node) else w
        return X.ite(c, a, b, ww)

    def calln(self, st, name, args):
        h = self.override.get(name)
        if h is not None:
            return h(self, st, args)
        F = self.mod.func(name)
        if F is None:
            h = self.ext.get(name)
            if h is None:
                raise Unsupported('external function ' + name)
            return h(self, st, args)
        return self.run(st, F, args)

    def call(self, st, name, *args):
        return self.calln(st, name, list(args))

    # ------------------------------------------------------------ execution
    def run(self, st, F, args):
        if not F.compiled:
            F.compile(self)
            self.funcs_used.add(F.name)
        elif F.name not in self.funcs_used:
            self.funcs_used.add(F.name)
        R = [None] * F.nregs
        R[:len(args)] = args
        self.stack.append(F.name)
        npcs = len(self.pcs)
        try:
            t = self.region(st, F, R, 0, None)
        finally:
            self.stack.pop()
        return t[1]

    def region(self, st, F, R, b, stop):
        code = F.code
        while True:
            if b == stop:
                return None
            self.nblocks += 1
            if self.nblocks & 4095 == 0:
                if self.nblocks > self.budget:
                    raise Budget('blocks')
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time')
            t = code[b](self, st, R)
            if type(t) is int:
                b = t
                continue
            if t[0] is None:
                return t
            if len(t) == 4:
                c, blk, ta, tb = t
                r = self.branch(st, F, R, c, blk, ta, tb)
            else:
                r = self.switch(st, F, R, t)
            if type(r) is tuple:
                return r
            b = r

    def switch(self, st, F, R, t):
        v, blk, cases, dflt, w = t
        P = F.ipdom[blk]

        def go(cs):
            if not cs:
                tgt = dflt
                return tgt
            return None
        # group guards per target
        tg = {}
        rest = 1
        for k, b in cases:
            g = X.eq(v, k, w)
            tg[b] = X.bor(tg.get(b, 0), g)
            rest = X.band(rest, X.bnot(g))
        tg[dflt] = X.bor(tg.get(dflt, 0), rest)
        items = [(g, b) for b, g in tg.items() if not (type(g) is int and g == 0)]
        return self.multi(st, F, R, blk, P, items)

    def multi(self, st, F, R, blk, P, items):
        if len(items) == 1:
            g, b = items[0]
            e = F.edges.get((blk, b))
            if e:
                e(self, st, R)
            if P == -1:
                return self.region(st, F, R, b, None)
            r = self.region(st, F, R, b, P)
            return P
        g, b = items[0]
        return self.branch2(st, F, R, g, blk, P, lambda s, r: self.multi(s, F, r, blk, P, [(1, b)]),
                            lambda s, r: self.multi(s, F, r, blk, P, items[1:]), True)

    def branch(self, st, F, R, c, blk, ta, tb):
        P = F.ipdom[blk]
        check = not F.diamond(blk)

        def side(tgt):
            def f(s, r):
                e = F.edges.get((blk, tgt))
                if e:
                    e(self, s, r)
                if P == -1:
                    return self.region(s, F, r, tgt, None)
                return self.region(s, F, r, tgt, P)
            return f
        return self.branch2(st, F, R, c, blk, P, side(ta), side(tb), check)

    def branch2(self, st, F, R, c, blk, P, fa, fb, check):
        self.forks += 1
        nc = X.bnot(c)
        if self.path is not None and (check or self.path.split):
            if self.path.take(c):
                self.narrow(st, c)
                r = fa(st, R)
            else:
                self.narrow(st, nc)
                r = fb(st, R)
            return P if P != -1 else r
        da = db = False
        ra = rb = None
        if check:
            if not self.feasible(c):
                da = True
            elif not self.feasible(nc):
                db = True
        if da and not db:
            # only false side feasible (or both infeasible)
            r = fb(st, R)
            return P if P != -1 else r
        if db:
            r = fa(st, R)
            return P if P != -1 else r
        sa = self.forkstate(st, c)
        Ra = R[:]
        n = len(self.pcs)
        sl = len(self.stack)
        self.pcs.append(c)
        try:
            ra = fa(sa, Ra)
        except PathDead:
            da = True
            del self.stack[sl:]
        extra_a = self.pcs[n + 1:]
        del self.pcs[n:]
        sb = self.forkstate(st, nc)
        Rb = R[:]
        self.pcs.append(nc)
        try:
            rb = fb(sb, Rb)
        except PathDead:
            db = True
            del self.stack[sl:]
        extra_b = self.pcs[n + 1:]
        del self.pcs[n:]
        if da and db:
            raise PathDead('both')
        if da:
            self.adopt(st, sb)
            self.narrow(st, nc)
            for e in extra_b:
                self.narrow(st, e)
            R[:] = Rb
            return P if P != -1 else rb
        if db:
            self.adopt(st, sa)
            self.narrow(st, c)
            for e in extra_a:
                self.narrow(st, e)
            R[:] = Ra
            return P if P != -1 else ra
        self.merge(st, c, sa, sb)
        # assumptions made inside one side hold only under that side
        for e in extra_a:
            self.narrow(st, X.bor(nc, e))
        for e in extra_b:
            self.narrow(st, X.bor(c, e))
        if P == -1:
            va, vb = ra[1], rb[1]
            if va is None:
                return (None, None)
            return (None, self.mergereg(c, va, vb, F.ret))
        live = F.live_in(P)
        rt = F.rtype
        for i in live:
            x, y = Ra[i], Rb[i]
            if x is y:
                R[i] = x
            elif x is None:
                R[i] = y
            elif y is None:
                R[i] = x
            else:
                R[i] = self.mergereg(c, x, y, rt[i])
        return P

    def mergereg(self, c, x, y, t):
        if x is y:
            return x
        k = t[0]
        if k == 'vec':
            w = llir.bits(t[2])
            return [X.ite(c, p, q, w) for p, q in zip(vec.L(x, t[1], w), vec.L(y, t[1], w))]
        if k in ('struct', 'arr'):
            ts = t[1] if k == 'struct' else [t[2]] * t[1]
            return tuple(self.mergereg(c, p, q, e) for p, q, e in zip(x, y, ts))
        if k == 'void':
            return None
        return X.ite(c, x, y, llir.bits(t))

    def forkstate(self, st, c):
        s = State()
        s.mem = dict(st.mem)
        s.pc = X.band(st.pc, c)
        st.tok = object()      # parent's objects become shared
        return s

    def adopt(self, st, s):
        st.mem = s.mem
        st.tok = s.tok
        st.pc = s.pc

    def narrow(self, st, c):
        """permanently assume c on this path"""
        if type(c) is int:
            if c == 0:
                raise PathDead('assume false')
            return
        self.pcs.append(c)

    def merge(self, st, c, sa, sb):
        ma, mb = sa.mem, sb.mem
        tok = object()
        out = dict(ma)
        for k, ob in mb.items():
            oa = ma.get(k)
            if oa is None:
                out[k] = ob
                continue
            if oa is ob:
                continue
            if oa.cells is ob.cells and oa.freed is ob.freed:
                continue
            if oa.gran != ob.gran:
                g = min(oa.gran, ob.gran)
                if oa.gran != g:
                    oa = self.regran(sa, oa, g)
                else:
                    ob = self.regran(sb, ob, g)
            w = oa.gran * 8
            o = oa.clone(tok)
            ca = oa.cells
            cb = ob.cells
            res = o.cells
            for i in range(len(ca)):
                x = ca[i]
                y = cb[i]
                if x is not y and x != y:
                    if x is None:
                        x = X.fresh('uninit_%s_%d' % (o.name, i * o.gran), w)
                    elif y is None:
                        y = X.fresh('uninit_%s_%d' % (o.name, i * o.gran), w)
                    res[i] = X.ite(c, x, y, w)
            if oa.freed is not ob.freed:
                o.freed = X.ite(c, oa.freed, ob.freed, 1)
            out[k] = o
        st.mem = out
        st.tok = tok

    def select(self, c, a, b, w):
        p = self.path
        if p is None or not p.sel or a is b:
            return X.ite(c, a, b, w)
        if p.take(c):
            self.pcs.append(c)
            return a
        self.pcs.append(X.bnot(c))
        return b

    def zext1(self, c, w):
        p = self.path
        if p is None or not p.sel:
            return X.zext(c, 1, w)
        return self.select(c, 1, 0, w)

    # ------------------------------------------------------------ solver
    def sync(self):
        s = self.synced
        p = self.pcs
        i = 0
        n = min(len(s), len(p))
        while i < n and s[i] is p[i]:
            i += 1
        if len(s) > i:
            self.solver.pop(len(s) - i)
            del s[i:]
        for c in p[i:]:
            self.solver.push()
            self.solver.add(X.zb(c))
            s.append(c)

    def feasible(self, c=1):
        if type(c) is int and c == 0:
            return False
        if type(c) is int and not self.pcs:
            return True
        return self.query(c, model=False)[0] != 'unsat'

    def query(self, c=1, want=None, model=True):
        if type(c) is int and c == 0:
            return 'unsat', None
        t0 = time.time()
        self.sync()
        self.queries += 1
        if type(c) is int and not self.pcs and not self.assume and want is None:
            return 'sat', {}
        self.solver.push()
        try:
            if type(c) is not int:
                self.solver.add(X.zb(c))
            r = str(self.solver.check())
            m = None
            if r == 'sat' and model:
                zm = self.solver.model()
                m = {d.name(): self._mv(zm, d) for d in zm.decls() if d.arity() == 0}
                if want is not None:
                    m['@'] = zm.eval(X.to_z3(want), model_completion=True).as_long()
            return r, m
        finally:
            self.solver.pop()
            self.qtime += time.time() - t0

    @staticmethod
    def _mv(zm, d):
        v = zm[d]
        if z3.is_bool(v):
            return 1 if z3.is_true(v) else 0
        try:
            return v.as_long()
        except Exception:
            return 0

    def assert_always(self, c):
        """global assumption (precondition)"""
        if type(c) is int:
            assert c == 1
            return
        assert not self.pcs or self.pcs == self.assume, 'assumptions must come first'
        self.assume.append(c)
        self.pcs.append(c)


class LazyK(object):
    def __init__(self, E, K):
        self.E = E
        self.K = K
        self.c = {}

    def __getitem__(self, i):
        r = self.c.get(i)
        if r is None:
            r = self.c[i] = self.E.resolve_const(self.K[i])
        return r


class PathExplorer(object):
    """depth-first enumeration of the paths of a run: every two-way decision is taken one way, the other is queued"""

    def __init__(self, E, limit=4000, split=False, sel=False):
        self.E = E
        self.sel = sel              # also take selections
        self.split = split          # also take two-way decisions that could be merged
        self.todo = [[]]
        self.limit = limit
        self.n = 0
        self.prefix = None
        self.pos = 0

    def take(self, c):
        E = self.E
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d
        t = E.feasible(c)
        f = E.feasible(X.bnot(c))
        if t and f:
            self.todo.append(self.prefix[:self.pos] + [False])
            d = True
        else:
            d = t
            if not t and not f:
                raise PathDead('infeasible')
        self.prefix = self.prefix[:self.pos] + [d]
        self.pos += 1
        return d

    def pick(self, n):
        """one of n alternatives"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.todo.append(self.prefix[:self.pos] + [k])
            d = 0
            self.prefix = self.prefix[:self.pos] + [d]
        self.pos += 1
        return d

    def paths(self, st, fn):
        """fn(state) for each path; yields (result, dead)"""
        E = self.E
        pc0 = list(E.pcs)
        while self.todo:
            if self.n >= self.limit:
                raise Budget('paths')
            self.prefix = self.todo.pop()
            self.pos = 0
            self.n += 1
            E.pcs[:] = pc0
            old, E.path = E.path, self
            sl = len(E.stack)
            s = E.forkstate(st, 1)
            dead = None
            r = None
            try:
                r = fn(s)
            except PathDead as e:
                dead = str(e)
                del E.stack[sl:]
            finally:
                E.path = old
            yield s, r, dead
        E.pcs[:] = pc0
