"""P12: hand-off of successive operations to the workers.

The calling thread's history over consecutive operations (lengths and settings given, everything it writes is recorded with the
point in time of the write) is produced by executing the real code.  The real WorkerThreadFunction is then executed symbolically
against that history: every load from memory the calling thread writes happens at a symbolic, non-decreasing time and returns what
was there at that time, atomic counters return any value not below the history's (other workers may have advanced them).  Each
unit of work the worker starts must be a unit of the operation in whose time frame it was drawn, with exactly the arguments the
calling thread itself uses for that operation, and the operation's counters must not be set up again afterwards."""
from common import *
from p_threads import ThreadCheck, PAR_ASSUME, configured, method, need, par_replay, names, LENS
from threads import Leaf, tvar, rn
from engine.interp import PathExplorer, PAGE
from engine.capi import ELSIZE
import thr_replay

TAU = 14
USED = 1030


class All(object):
    def __contains__(self, x):
        return True


class Op(object):
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return '%s%s' % (self.kind, ''.join('_%s' % (x if not isinstance(x, (tuple, list)) else ''.join(map(str, x))) for x in self.a))


def bytesof(v, n):
    return [(v >> (8 * i)) & 255 if type(v) is int else X.extract(v, 8 * i + 7, 8 * i) for i in range(n)]


class Hist(object):
    def __init__(self, ctx, st):
        self.ctx, self.E, self.C = ctx, ctx.E, ctx.C
        self.s0 = self.E.forkstate(st, 1)
        self.st = self.E.forkstate(st, 1)
        self.t = 0
        self.ev = []
        self.bytes = {}
        self.ops = []
        self.pend = None
        self.rmw = None
        self.leafs = []
        self.skip = False
        self.ver = {}

    # ---------------------------------------------------------- recording
    def flush(self):
        if self.pend is None:
            return
        t, a, n, k = self.pend
        self.pend = None
        self.skip = True
        try:
            for i in range(0, n, 8):
                m = min(8, n - i)
                v = self.E.load(self.st, a + i, m)
                e = len(self.ev)
                self.ev.append((t, a + i, m, v, k))
                for b in range(a + i, a + i + m):
                    self.bytes.setdefault(b, []).append(e)
        finally:
            self.skip = False

    def access(self, kind, addr, n, st, o):
        if self.skip or kind != 'w':
            return
        if o.kind == 'stack' and self.private(o):
            return
        self.flush()
        self.t += 1
        self.pend = (self.t, addr, n, self.rmw == addr)
        self.rmw = None

    def private(self, o):
        return False

    def atomic(self, st, op, addr, v, w):
        self.rmw = addr

    def leaf(self, name, args):
        self.leafs.append((name, tuple(args)))

    def record(self, ops):
        E, C = self.E, self.C
        hooks(self, self.leaf)
        E.trace, E.watch, E.on_atomic = self.access, All(), self.atomic
        C.on_syscall = lambda E_, s, a: 0
        try:
            for k, op in enumerate(ops):
                self.t += 1
                start = self.t
                self.leafs = []
                perform(self, self.st, op, k)
                self.flush()
                self.t += 1
                self.ops.append((start, self.t, list(dict.fromkeys(self.leafs))))
        finally:
            unhook(self)

    # ---------------------------------------------------------- reading at a time
    def versions(self, addr, n):
        k = (addr, n)
        r = self.ver.get(k)
        if r is None:
            es = sorted(set(e for b in range(addr, addr + n) for e in self.bytes.get(b, ())))
            if not es:
                self.ver[k] = r = []
            else:
                tr, self.E.trace = self.E.trace, None
                np_ = len(self.E.problems)
                try:
                    cur = bytesof(self.E.load(self.s0, addr, n), n)
                except PathDead:
                    cur = [X.fresh('stack', 8) for _ in range(n)]
                finally:
                    self.E.trace = tr
                    del self.E.problems[np_:]
                r = [(0, X.concat([(b, 8) for b in cur]))]
                last = 0
                for e in es:
                    t, a, m, v, _ = self.ev[e]
                    vb = bytesof(v, m)
                    for i in range(m):
                        if addr <= a + i < addr + n:
                            cur[a + i - addr] = vb[i]
                    w = X.concat([(b, 8) for b in cur])
                    if r[-1][0] == t:
                        r[-1] = (t, w)
                    else:
                        r.append((t, w))
                self.ver[k] = r
        return r


def hooks(h, leaf):
    E, C = h.E, h.C
    h.saved = (E.on_atomic, E.trace, E.watch, C.on_syscall, E.indirect, C.oldloop_handler, dict(E.override))

    def chunk(E_, s, a):
        leaf('chunk', [a[0], a[2], a[3]])
        return 0

    def index(E_, s, a):
        leaf('index', [a[0], a[2]])
        return 0

    def indirect(E_, s, name, args):
        if not is_inner(args):
            return None
        leaf(name, args)
        return (0,)

    def old(E_, s, name, sig, a):
        k = len(sig)
        v = [E_.load(s, X.add(a[0], 8 * i, 64), 8) for i in range(k)] + [E_.load(s, a[1], 8)] + [E_.load(s, X.add(a[2], 8 * i, 64), 8) for i in range(k)] + [a[3]]
        leaf('old:%s:%s' % (name, ','.join(map(str, sig))), v)
    E.override['vp_chunk'] = chunk
    E.override['vp_index'] = index
    E.indirect = indirect
    C.oldloop_handler = old


def unhook(h):
    E, C = h.E, h.C
    (E.on_atomic, E.trace, E.watch, C.on_syscall, E.indirect, C.oldloop_handler, ov) = h.saved
    E.override.clear()
    E.override.update(ov)


OPER = 0x6000_0000_0000


def is_inner(args):
    """a call that works on array elements: one of its arguments is the address of an operand"""
    return any(type(a) is int and OPER <= a < OPER + (1 << 44) for a in args)


def perform(h, st, op, k):
    E, C = h.E, h.C
    if op.kind == 'chunk':
        E.calln(st, 'vp_run_chunk', [op.a[0], 0x7000 + k, 0])
    elif op.kind == 'index':
        E.calln(st, 'vp_run_index', [op.a[0], 0x7000 + k, 0])
    elif op.kind == 'vec':
        name, sig, n = op.a
        es = [ELSIZE[t] for t in sig]
        ps = [OPER + (k * 4 + i) * (1 << 32) for i in range(len(sig))]
        E.callp(st, C.replaced[(name, sig)], args(E, st, ps, es, n))
    elif op.kind == 'red':
        name, sig, n = op.a
        es = ELSIZE[sig[0]]
        o = E.newobj(st, 16, 8, 'out', init=[0x3ff0000000000000, 0])
        E.callp(st, C.replaced[(name, sig)], args(E, st, [o, OPER + (k * 4) * (1 << 32), o], [0, es, 0], n))


def args(E, st, ps, ss, n):
    k = len(ps)
    return [E.newobj(st, 8 * k, 8, 'args', init=list(ps)), E.newobj(st, 8, 8, 'dims', init=[n]),
            E.newobj(st, 8 * k, 8, 'steps', init=list(ss)), 0x5a5a0]


class Worker(object):
    def __init__(self, h, K):
        self.h, self.E, self.C, self.K = h, h.E, h.C, K
        self.cells = set()
        self.memo = {}
        self.chain = set()

    def reset(self):
        self.now = 0
        self.k = 0
        self.lo, self.hi = [], []
        self.chain = set()
        self.nc = 0
        self.ev = []
        self.rm = []
        self.units = 0
        self.skip = False
        self.skipn = 0
        self.numbered = False
        self.plain = 0

    def narrow(self, c):
        E = self.E
        if type(c) is int:
            if not c:
                raise PathDead('infeasible')
            return
        E.pcs.append(c)

    def tick(self):
        """the time of the next access"""
        t = X.zext(X.var('tau%d' % self.k, TAU), TAU, 16)
        self.k += 1
        self.lo.append(self.lo[-1] if self.lo else 0)
        self.hi.append(self.h.t + 1)
        n = len(self.E.pcs)
        self.narrow(X.ule(self.now, t, 16))
        self.narrow(X.ule(t, self.h.t + 1, 16))
        self.chain.update(self.E.pcs[n:])
        self.now = t
        return t

    def frames(self):
        h = self.h
        return ([(a, b - 1) for a, b, _ in h.ops] + [(b, (h.ops[q + 1][0] - 1) if q + 1 < len(h.ops) else h.t + 1) for q, (a, b, _) in enumerate(h.ops)] +
                [(0, h.ops[0][0] - 1)])

    def bound(self, i, lo, hi):
        """restrict the i-th time to lo..hi; the times form a chain, so propagating bounds along it decides feasibility"""
        L, H = self.lo[:], self.hi[:]
        for j in range(i, len(L)):
            L[j] = max(L[j], lo)
        for j in range(0, i + 1):
            H[j] = min(H[j], hi)
        if any(a > b for a, b in zip(L, H)):
            return None
        return L, H

    def choose(self, i, ranges):
        """one of the ranges for the i-th time, the others are queued as further paths; None when it fits in none"""
        t = X.zext(X.var('tau%d' % i, TAU), TAU, 16)
        opts = []
        for k, (lo, hi) in enumerate(ranges):
            b = self.bound(i, lo, hi)
            if b:
                opts.append((k, lo, hi, b))
        if not opts:
            return None
        k, lo, hi, (self.lo, self.hi) = opts[self.E.path.pick(len(opts))]
        n = len(self.E.pcs)
        self.narrow(X.ule(lo, t, 16))
        self.narrow(X.ule(t, hi, 16))
        self.chain.update(self.E.pcs[n:])
        return k

    def query(self, c=1, want=None, model=True):
        """whether a path goes on: the order of the times enters through the bounds it implies for each of them (an
        over-approximation when several times occur; obligations are decided under the full path condition)"""
        E = self.E
        if want is not None and type(want) is not int:
            r = self.sliced(c, want)
            if r == 'unsat':
                return r, None
            o = E.obj(self.cur, E.pages.get(r >> PAGE)) if type(r) is int else None
            if o is not None and o.base <= r <= o.base + o.size - 8:
                return 'sat', {'@': r}
        if model or want is not None or type(c) is int:
            return type(E).query(E, c, want, model)
        return self.sliced(c), None

    def sliced(self, c, want=None):
        """unsat / sat of c under the conditions that share variables with it; equal up to the names of variables = decided once"""
        E = self.E
        vs = set(names(c)) | set(names(want) if want is not None else ())
        rest = [p for p in E.pcs if p not in self.chain]
        use = []
        grew = True
        while grew:
            grew = False
            for p in rest:
                if p not in use and names(p) & vs:
                    use.append(p)
                    vs |= names(p)
                    grew = True
        vs = sorted(vs)
        for v in vs:
            if v.startswith('tau'):
                i = int(v[3:])
                t = X.zext(X.var(v, TAU), TAU, 16)
                use += [x for x in (X.ule(self.lo[i], t, 16), X.ule(t, self.hi[i], 16)) if type(x) is not int]
        # c and the conditions with their variables numbered in order of occurrence
        no = {}

        def f(v):
            return no.setdefault(v, 'v%d' % len(no))
        cache = {}
        k = tuple(X.rename(x, f, cache) for x in [c] + use + ([want] if want is not None else []))
        r = self.memo.get((want is None, k))
        if r is None:
            t0 = time.time()
            E.queries += 1
            s = z3.SimpleSolver()
            s.set('timeout', 20000)
            for x in k if want is None else k[:-1]:
                s.add(X.zb(x))
            r = str(s.check())
            if r == 'sat' and want is not None:
                r = s.model().eval(X.to_z3(k[-1]), model_completion=True).as_long()
            self.memo[want is None, k] = r
            E.qtime += time.time() - t0
        return r

    def at(self, addr, n, merge=False):
        v = self.h.versions(addr, n)
        if not v:
            return None
        if len(v) == 1:
            return v[0][1]
        # a run of versions with the same value is one version
        w = [v[0]]
        for x in v[1:]:
            if x[1] is not w[-1][1] and not (type(x[1]) is int and x[1] == w[-1][1]):
                w.append(x)
        t = self.tick()
        if merge:
            r = w[0][1]
            for x in w[1:]:
                r = X.ite(X.ule(x[0], t, 16), x[1], r, n * 8)
            return r
        ends = [x[0] - 1 for x in w[1:]] + [self.h.t + 1]
        k = self.choose(self.k - 1, [(x[0], e) for x, e in zip(w, ends)])
        if k is None:
            raise PathDead('infeasible')
        return w[k][1]

    def access(self, kind, addr, n, st, o):
        if self.skip:
            return
        if self.skipn:
            self.skipn -= 1
            return
        if kind != 'r' or type(addr) is not int:
            return
        h = self.h
        if not any(b in h.bytes for b in (addr, addr + n - 1)):
            return
        self.plain += 1
        if self.plain > 400:
            raise PathDead('spin')
        for i in range(0, n, 8):
            m = min(8, n - i)
            v = self.at(addr + i, m, addr + i in self.cells)
            if v is None:
                continue
            if addr + i in self.cells:
                v = self.counter(v, m * 8)
            self.skip = True
            try:
                self.E.store(st, addr + i, v, m)
            finally:
                self.skip = False

    def counter(self, v, w):
        if type(v) is int and v >> (w - 1):
            raise Unsupported('negative counter')
        self.nc += 1
        x = X.zext(X.var('c%d' % self.nc, min(30, w)), min(30, w), w)
        self.narrow(X.ule(v, x, w))
        return x

    def atomic(self, st, op, addr, v, w):
        if not self.numbered:
            self.numbered = True
            self.skipn = 2
            return
        if type(addr) is not int:
            raise Unsupported('atomic access at a symbolic address')
        n = w // 8
        self.cells.add(addr)
        self.skip = True
        try:
            cur = self.at(addr, n, True)
            if cur is None:
                cur = self.E.load(st, addr, n)
                self.tick()
            elif not self.h.versions(addr, n)[1:]:
                self.tick()
            old = self.counter(cur, w)
            self.E.store(st, addr, old, n)
        finally:
            self.skip = False
        self.rm.append((addr, old, self.now, self.k - 1))
        self.ev.append(('rmw', addr, old))
        self.skipn = 2
        self.plain = 0

    def need(self, bad, what):
        if type(bad) is int and not bad or type(bad) is not int and self.sliced(bad) == 'unsat':
            self.rec.obligations += 1
            self.rec.discharged += 1
            return
        need(self.rec, self.E, bad, self.cand, self.key, what)

    def leaf(self, name, a):
        if self.units >= self.K:
            raise PathDead('unit')
        self.units += 1
        self.plain = 0
        rec, key, cand, E, h = self.rec, self.key, self.cand, self.E, self.h
        vs = set().union(*[names(x) for x in a if type(x) is not int])
        d = [r for r in self.rm if tvar(r[1]) in vs] or self.rm
        if not d:
            rec.cand(dict(cand, key=key + ':undrawn', what='undrawn', env={}))
            raise PathDead('done')
        X_ = self.choose(d[-1][3], self.frames())
        if X_ is None:
            raise PathDead('infeasible')
        if X_ >= len(h.ops):
            need(rec, E, 1, cand, key, 'outside')
            raise PathDead('done')
        s, e, lv = h.ops[X_]
        self.tick()
        if self.choose(self.k - 1, [(0, e - 1)]) is None:
            raise PathDead('infeasible')
        ok = 0
        for nm, b in lv:
            if nm == name and len(b) == len(a):
                ok = X.bor(ok, X.balls([eqv(x, y) for x, y in zip(a, b)]))
        self.need(X.bnot(ok), 'stranger')
        for addr, old, t, _ in self.rm:
            for tt, b, n, v, r in h.ev:
                if not r and s < tt < e and b <= addr < b + n:
                    self.need(X.band(X.ule(s, t, 16), X.ult(t, tt, 16)), 'reset')
        w = 'a worker takes part in operation %d' % X_
        if not rec.witness.get(w) and E.query(1, model=False)[0] == 'sat':
            rec.reach(w)
        self.rm = []


def eqv(x, y):
    if type(x) is int and type(y) is int:
        return int(x == y)
    return X.eq(x, y, 64) if not (x is y) else 1


def hand_job(ctx, rec, key, ops, w, zig, atop, cores, K):
    E, C = ctx.E, ctx.C
    st = E.forkstate(ctx.st, 1)
    method(ctx, st, 'thread_setworkers', w)
    if not atop:
        method(ctx, st, 'atop_disable')
    E.override['vp_index'] = lambda E_, s, a: 0
    C.on_syscall = lambda E_, s, a: 0
    for i in range(USED):
        E.calln(st, 'vp_run_index', [2 + i % 5, 0x3333, 0])
    if zig:
        method(ctx, st, 'thread_zigzag')
    h = Hist(ctx, st)
    h.record(ops)
    if E.pcs:
        raise Unsupported('the calling thread does not follow a single path')
    for s, e, lv in h.ops:
        rec.reach('the operations are split over threads', len(lv) > 1)
        if len(lv) < 2:
            return
    wk = Worker(h, K)
    wk.rec, wk.key = rec, key
    wk.cand = dict(ops=[repr(o) for o in ops], w=w, zig=zig, atop=atop, ufunc=ops[-1].kind, allops=[(o.kind,) + tuple(o.a) for o in ops])
    hooks(h, wk.leaf)
    E.trace, E.watch, E.on_atomic = wk.access, All(), wk.atomic

    def futex(E_, s, a):
        if type(a[2]) is int and a[2] & 127 == 0:
            raise PathDead('park')
        return 0
    C.on_syscall = futex
    E.query = wk.query
    rec.notes['history'] = len(h.ev)
    n = 0
    try:
        for core in cores:
            fn, arg = C.threads[core - 1]
            # the worker numbers itself: start from the state in which core-1 workers have done so
            s0 = E.forkstate(h.st, 1)
            c = number_cell(E, s0, fn, arg)
            if c is not None:
                E.trace = None
                E.store(s0, c, core - 1, 8)
                E.trace = wk.access
            def go(s):
                wk.reset()
                wk.cur = s
                return E.callp(s, fn, [arg])
            known = None
            E.pcs[:] = []
            while known != wk.cells:        # counters that only later turn out to be shared: explore again
                known = set(wk.cells)
                n += explore(rec, E, wk, key, PathExplorer(E, 200000, True), s0, go)
    finally:
        unhook(h)
        del E.query
        E.pcs[:] = []
    rec.notes['paths'] = n
    rec.reach('workers were explored', n > 1)


def explore(rec, E, wk, key, ex, s0, go):
    n = 0
    k = len(wk.cells)
    for s, r, dead in ex.paths(s0, go):
        n += 1
        if len(wk.cells) != k or len(rec.cands) > 12:
            E.pcs[:] = []
            return n
        if dead == 'infeasible' or dead is None or dead in ('park', 'unit', 'done'):
            continue
        need(rec, E, 1, dict(wk.cand, why=dead), key, dead)
        del E.problems[:]
    return n


def number_cell(E, st, fn, arg):
    found = []

    def at(s, op, addr, v, w):
        found.append(addr)
        raise PathDead('numbered')
    oa, E.on_atomic, tr, E.trace, op, E.path = E.on_atomic, at, E.trace, None, E.path, None
    try:
        E.callp(E.forkstate(st, 1), fn, [arg])
    except PathDead:
        pass
    finally:
        E.on_atomic, E.trace, E.path = oa, tr, op
        del E.stack[:]
    return found[0] if found else None


class P12(ThreadCheck):
    pid = 'P12'
    total_timeout = 300
    replay_limit = 700
    tries = 1
    max_replays = 9
    assumptions = PAR_ASSUME[:1] + [
        'sequentially consistent memory (on x86 stores and loads are not reordered among themselves); the compiled store order is that of the IR at the optimisation level of the check (-O1)',
        'a unit drawn from an operation keeps that operation from returning (P07, P08, P10, P11)', 'a worker is not suspended for 1024 operations in a row (the ring would have wrapped)']

    def jobs(self, ctx):
        V = lambda nm, sig, n: Op('vec', nm, sig, n)
        A = Op('chunk', 70000), Op('chunk', 100001)
        I = Op('index', 3), Op('index', 5)
        F, G = V('add', (5, 5, 5), 65536), V('multiply', (12, 12, 12), 81921)
        H, S = V('sqrt', (12, 12), 70000), V('less', (5, 5, 0), 90000)
        R, Q = Op('red', 'add', (12, 12, 12), 70000), Op('red', 'maximum', (5, 5, 5), 98305)
        D = V('sin', (11, 11), 66000)
        L = [(A, 'chunks'), ((A[0], I[1]), 'chunkidx'), (I, 'idx'), ((F, G), 'vec'), ((G, H), 'unary'), ((F, R), 'vecred'), ((R, Q), 'red'), ((Q, S), 'redcmp'), ((H, A[1]), 'vecchunk'), ((I[0], F), 'idxvec'), ((D, D), 'same')]
        J = []
        have = lambda o: o.kind not in ('vec', 'red') or (o.a[0], o.a[1]) in ctx.C.replaced
        for ops, nm in L:
            if not all(have(o) for o in ops):
                continue
            for w, zig, atop, cores in ((1, False, True, [1, 2]), (2, True, True, [1, 2, 3]), (4, False, False, [3]), (14, True, True, [7, 8, 14, 15])):
                if not atop and ops[0].kind == 'red' and ctx.tier != 'thorough':
                    continue
                J.append(('%s@w%d%s%s' % (nm, w, 'z' if zig else '', '' if atop else 'n'), hand_job, (list(ops), w, zig, atop, cores, 1), 4))
            if ctx.tier == 'thorough':
                J.append(('%s@w2K2' % nm, hand_job, (list(ops), 2, False, True, [1, 2], 2), 8))
        return J

    def group(self, c):
        return '%s:%s' % ('-'.join(o.split('_')[0] for o in c['ops']), c['what'])

    def replay(self, ctx, c):
        import p_handoff_replay
        return p_handoff_replay.replay(self.pid, self.group(c), c)

    def bounds(self, ctx):
        return ('histories of two consecutive operations (chunk, index, element-wise, reduce and their combinations; 3 to 7 units each) after 1030 earlier ones; worker counts 1, 2, 4, 14; '
                'any points in time for the accesses of a worker, early, late or spurious wake-ups; K=1 unit per wake-up (2 in the thorough run)')


CHECKS = {c.pid: c for c in (P12,)}
