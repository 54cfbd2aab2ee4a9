"""Rely-guarantee model of one parallel section of the module.

The real main-thread code and the real WorkerThreadFunction are executed symbolically, one thread at a time.  In the parallel
phase (from the first futex wake on) every atomic read-modify-write draws a fresh symbolic old value for its cell (whatever the
other threads did before), bounded only by monotonicity, and so does every plain load of such a cell.  The array length, the
operand addresses and the interleaving are therefore symbolic.  The calls that work on array elements ("leaves") are recorded
instead of being executed; the obligations in finish() say that over all threads and all interleavings each element is handed to
exactly one leaf, that the caller only returns when all leaves are done, and that it cannot stop while work is left."""
from common import *
from engine.interp import PathExplorer
import lia

NBITS = 40
NMAX = 1 << NBITS
TW = 30          # counters stay below 2**30 (at most 2**26 blocks, plus failing draws)
M64 = (1 << 64) - 1


def fold(xs):
    r = 1
    for x in xs:
        r = X.band(r, x)
    return r


class Restart(Exception):
    """a counter turned out to be shared: explore again, treating it as such from the start"""


class Leaf(object):
    __slots__ = ('name', 'args', 'info')

    def __init__(self, name, args, info):
        self.name = name
        self.args = args
        self.info = info


class Trace(object):
    __slots__ = ('ev', 'pcs', 'dead', 'ret', 'snap', 'prepcs', 'core', 'alloc')


class Par(object):
    def __init__(self, ctx, st, K=1, limit=3000):
        self.ctx = ctx
        self.E = ctx.E
        self.C = ctx.C
        self.st = st
        self.K = K
        self.limit = limit
        self.shared = {}          # rmw'd cells: addr -> width bytes
        self.leaf_fn = None       # f(E, st, name, args) -> Leaf or None
        self.divs = {}
        self.slow = None
        self.interval = None      # f(leaf) -> (first element, length, expression that must be false)
        self.tail = True          # follow a thread after its last recorded leaf until it stops
        self.tcells = set()
        self.ring = None
        self.allocs = []
        self.nonlinear = {}

    # ------------------------------------------------------------ hooks
    def install(self):
        E, C = self.E, self.C
        self.saved = (E.on_atomic, E.trace, E.watch, C.on_syscall, E.indirect, C.oldloop_handler, E.symstore, E.symalloc, E.div,
                      dict(E.override))
        E.on_atomic = self.on_atomic
        E.trace = self.on_access
        E.watch = set()
        C.on_syscall = self.on_syscall
        E.indirect = self.on_indirect
        C.oldloop_handler = self.on_oldloop
        E.symstore = self.on_symstore
        E.symalloc = self.on_symalloc
        E.div = self.on_div
        for nm in ('_Z7FmAllocm', 'malloc'):
            self.wrap_alloc(nm)
        E.query = self.query

    def query(self, c=1, want=None, model=True):
        """integer arithmetic first, bit-vectors when that does not apply"""
        E = self.E
        if type(c) is int and c == 0:
            return 'unsat', None
        if type(c) is int and not E.pcs and want is None:
            return 'sat', {}
        t0 = time.time()
        try:
            r, m = lia.solve(self.slice(c, want) + [c], want)
            if r != 'unknown':
                E.queries += 1
                return r, m
        except lia.NotLinear as e:
            self.nonlinear[str(e)] = self.nonlinear.get(str(e), 0) + 1
        finally:
            E.qtime += time.time() - t0
        return type(E).query(E, c, want, model)

    def slice(self, c, want=None):
        """the path conditions connected to c by common variables (the others are satisfiable on their own: every path was
        checked when it was entered)"""
        pcs = self.E.pcs
        if type(c) is int and want is None:
            return pcs
        vs = names(c) | (names(want) if want is not None else set())
        rest = [(p, names(p)) for p in pcs]
        out = []
        grew = True
        while grew and rest:
            grew = False
            r2 = []
            for p, n in rest:
                if n & vs:
                    out.append(p)
                    if not n <= vs:
                        vs |= n
                        grew = True
                else:
                    r2.append((p, n))
            rest = r2
        return out

    def uninstall(self):
        E, C = self.E, self.C
        (E.on_atomic, E.trace, E.watch, C.on_syscall, E.indirect, C.oldloop_handler, E.symstore, E.symalloc, _, ov) = self.saved
        del E.div
        del E.query
        E.override.clear()
        E.override.update(ov)

    def wrap_alloc(self, nm):
        E = self.E
        F = E.mod.func(nm) if nm in E.mod.funcsrc else None

        def h(E_, st, a):
            if type(a[0]) is int:
                return E.run(st, F, a) if F is not None else E.ext[nm](E, st, a)
            return self.on_symalloc(st, a[0])
        E.override[nm] = h
        fr = {'_Z7FmAllocm': '_Z6FmFreePv', 'malloc': 'free'}[nm]
        G = E.mod.func(fr) if fr in E.mod.funcsrc else None

        def hf(E_, st, a):
            if type(a[0]) is int and any(b == a[0] for b, _ in self.allocs):
                self.ev.append(('free', a[0]))
                return None
            return E.run(st, G, a) if G is not None else E.ext[fr](E, st, a)
        E.override[fr] = hf

    def on_symalloc(self, st, size):
        """a buffer of symbolic size: only its address range matters"""
        E = self.E
        base = 0x7e00_0000_0000 + len(self.allocs) * (1 << 44)
        self.allocs.append((base, size))
        return base

    def on_symstore(self, E, st, addr, v, n):
        for b, sz in self.allocs:
            off = X.sub(addr, b, 64)
            r, _ = E.query(X.bnot(X.band(X.ult(off, 1 << 44, 64), 1)), model=False)
            if r == 'unsat':
                self.ev.append(('vst', b, off, v, n))
                return True
        return False

    def on_div(self, st, op, a, b, w):
        """division by a constant: quotient and remainder by their defining equation (unique, so exact)"""
        E = self.E
        if type(b) is int and type(a) is not int and a.op != 'vs' and 0 < b < (1 << 20) and w == 64:
            if b & (b - 1) == 0 and op in ('udiv', 'urem'):
                return type(E).div(E, st, op, a, b, w)
            k = (a, b)
            nonneg = E.query(X.bnot(X.ult(a, NMAX * 4, 64)), model=False)[0] == 'unsat'
            if nonneg:
                if b & (b - 1) == 0:
                    s = b.bit_length() - 1
                    return X.lshr(a, s, 64) if op in ('udiv', 'sdiv') else X.and_(a, b - 1, 64)
                d = self.divs.get(k)
                if d is None:
                    q = X.zext(X.fresh('q', NBITS + 2), NBITS + 2, 64)
                    r = X.zext(X.fresh('r', 20), 20, 64)
                    d = self.divs[k] = (q, r, X.band(X.ult(r, b, 64), X.eq(X.add(X.mul(q, b, 64), r, 64), a, 64)))
                if d[2] not in E.pcs:
                    E.narrow(st, d[2])
                return d[0] if op in ('udiv', 'sdiv') else d[1]
        return type(E).div(E, st, op, a, b, w)

    def on_syscall(self, E, st, a):
        op = a[2]
        if type(op) is not int:
            raise Unsupported('futex operation')
        if op & 127 == 1:         # FUTEX_WAKE
            self.ev.append(('wake', a[1]))
            if self.phase == 'pre':
                self.begin(st, a[1])
            return 0
        if op & 127 == 0:         # FUTEX_WAIT
            raise PathDead('park')
        return 0

    def begin(self, st, addr):
        self.phase = 'work'
        o = self.E.objat(st, addr)
        self.E.watch.add(o.id)
        self.ring = o.id

    def on_atomic(self, st, op, addr, v, w):
        E = self.E
        if self.phase != 'work':
            if self.phase == 'prelude':
                self.first_rmw = addr
                raise PathDead('first rmw')
            return
        if type(addr) is not int:
            raise Unsupported('atomic access at a symbolic address')
        n = w // 8
        if not self.tail and addr in self.tcells and sum(1 for e in self.ev if e[0] == 'leaf') >= self.K:
            raise PathDead('next')
        if self.main and self.snap is None:
            self.snap = E.forkstate(st, 1)
            self.prepcs = list(E.pcs)
        if addr not in self.shared:
            self.shared[addr] = n
            raise Restart()
        self.skip = True
        try:
            cur = E.load(st, addr, n)
            old = self.havoc(st, addr, cur, w)
            E.store(st, addr, old, n)
        finally:
            self.skip = False
        self.ev.append(('rmw', addr, op, v, old, cur))
        self.loads = self.plain = 0
        self.skipn = 2

    def havoc(self, st, addr, cur, w):
        E = self.E
        if w < 32:
            raise Unsupported('narrow counter')
        x = X.zext(X.fresh('t', TW), TW, w)
        if type(cur) is int and cur >> (w - 1):
            raise Unsupported('negative counter')
        E.narrow(st, X.ule(cur, x, w))
        return x

    def on_access(self, kind, addr, n, st, o):
        if self.skip:
            return
        if self.skipn:
            self.skipn -= 1
            return
        if self.phase != 'work':
            return
        if kind == 'w':
            self.ev.append(('st', addr, n))
            return
        if kind == 'r':
            k = self.shared.get(addr)
            if k is None:
                self.plain += 1
                if self.plain > 600:
                    raise PathDead('spin')
                return
            if k != n:
                raise Unsupported('access of another width to a shared counter')
            E = self.E
            self.loads += 1
            if self.loads > 6:
                raise PathDead('bound')
            self.skip = True
            try:
                cur = E.load(st, addr, n)
                v = self.havoc(st, addr, cur, n * 8)
                E.store(st, addr, v, n)
            finally:
                self.skip = False
            self.ev.append(('ld', addr, v))

    def add_leaf(self, lf):
        self.loads = self.plain = 0
        if lf.info.get('final'):
            self.ev.append(('final', lf))
            return
        n = sum(1 for e in self.ev if e[0] == 'leaf')
        if self.phase == 'work':
            if n >= self.K:
                raise PathDead('bound')
            S = self.interval(lf)[0]
            tick = {tvar(e[4]): e[1] for e in self.ev if e[0] == 'rmw'}
            self.tcells |= set(tick[v] for v in names(S) if v in tick)
        self.ev.append(('leaf', lf))

    def on_indirect(self, E, st, name, args):
        lf = self.leaf_fn(E, st, name, args) if self.leaf_fn else None
        if lf is None:
            return None
        self.add_leaf(lf)
        return (0,)

    def on_oldloop(self, E, st, name, sig, args):
        k = len(sig)
        try:
            ps = [E.load(st, X.add(args[0], 8 * i, 64), 8) for i in range(k)]
            n = E.load(st, args[1], 8)
            ss = [E.load(st, X.add(args[2], 8 * i, 64), 8) for i in range(k)]
        except PathDead:
            raise
        self.add_leaf(Leaf('old:%s:%s' % (name, ','.join(map(str, sig))), None, dict(kind='old', ptrs=ps, steps=ss, n=n, data=args[3])))
        return None

    # ------------------------------------------------------------ exploration
    def reset(self, main):
        self.ev = []
        self.phase = 'pre' if main else 'work'
        self.main = main
        self.snap = None
        self.prepcs = None
        self.skip = False
        self.skipn = 0
        self.loads = self.plain = 0
        self.E.watch = set() if main else {self.ring}

    def run_main(self, fn):
        """-> list of Trace over all paths of the calling thread"""
        E = self.E
        out = []
        self.allocs = []
        ex = PathExplorer(E, self.limit)

        def go(s):
            self.reset(True)
            self.allocs = []
            return fn(s)
        for s, r, dead in ex.paths(self.st, go):
            if dead == 'infeasible':
                continue
            t = Trace()
            t.ev, t.pcs, t.dead, t.ret, t.snap, t.prepcs, t.core = self.ev, list(E.pcs), dead, r, self.snap, self.prepcs, 0
            t.alloc = list(self.allocs)
            out.append(t)
        return out

    def run_worker(self, core, snap, prepcs, allocs):
        E = self.E
        fn, arg = self.C.threads[core - 1]
        out = []
        pc0 = list(E.pcs)
        # the cell the thread numbers itself from: the first atomic operation of the thread function
        if not hasattr(self, 'numcell'):
            self.reset(True)
            self.phase = 'prelude'
            self.first_rmw = None
            s = E.forkstate(snap, 1)
            old, E.path = E.path, None
            try:
                E.callp(s, fn, [arg])
            except PathDead:
                pass
            finally:
                E.path = old
                del E.stack[:]
            self.numcell = self.first_rmw
        E.pcs[:] = prepcs
        s0 = E.forkstate(snap, 1)
        if self.numcell is not None:
            E.store(s0, self.numcell, core - 1, 8)
        ex = PathExplorer(E, self.limit)

        def go(s):
            self.reset(False)
            self.allocs = list(allocs)
            self.numbering = True
            return E.callp(s, fn, [arg])
        sh = dict(self.shared)
        oa = E.on_atomic

        def first(st, op, addr, v, w):
            if addr == self.numcell:
                self.skipn = 2
                return
            return oa(st, op, addr, v, w)
        E.on_atomic = first
        try:
            for s, r, dead in ex.paths(s0, go):
                if dead == 'infeasible':
                    continue
                t = Trace()
                t.ev, t.pcs, t.dead, t.ret, t.snap, t.prepcs, t.core = self.ev, list(E.pcs), dead, r, None, prepcs, core
                t.alloc = allocs
                out.append(t)
        finally:
            E.on_atomic = oa
            E.pcs[:] = pc0
        return out

    def explore(self, fn, workers):
        """-> (serial traces, [(prepcs, main traces, worker traces)])"""
        E = self.E
        for rnd in range(40):
            pc0, path = list(E.pcs), E.path
            try:
                main = self.run_main(fn)
                groups = {}
                serial = []
                for t in main:
                    if t.snap is None:
                        serial.append(t)
                    else:
                        groups.setdefault(tuple(id(c) for c in t.prepcs), []).append(t)
                res = []
                for k, ts in groups.items():
                    ws = []
                    for c in workers:
                        ws += self.run_worker(c, ts[0].snap, ts[0].prepcs, ts[0].alloc)
                    res.append((ts[0].prepcs, ts, ws))
                return serial, res
            except Restart:
                E.pcs[:] = pc0
                E.path = path
                del E.stack[:]
                self.skip = False
        raise Unsupported('set of shared counters does not settle')

    # ------------------------------------------------------------ obligations
    def finish(self, rec, key, cand, n, prepcs, main, ws):
        """Everything below is decided under the path
        conditions of the executed code."""
        E = self.E
        P = len(prepcs)
        cells = {}
        pre = set().union(*[names(c) for c in prepcs]) | names(n)
        cache = {}

        def bad(b, what, **k):
            if type(b) is int and b == 0:
                return rec.oblige(E, 0, {})
            full = E.pcs
            # the conditions that speak about the same draws come first; all of them only when those are not enough
            vs = names(b) | pre
            some = [c for c in full if names(c) <= vs]
            order = {}
            for c in [b] + some:
                for v in sorted(names(c) - pre):
                    order.setdefault(v, 'c%d' % len(order))
            ck = (rn(b, order), frozenset(rn(c, order) for c in some))
            if ck in cache:
                rec.obligations += 1
                rec.discharged += 1
                return True
            E.pcs = some
            try:
                if E.query(b, model=False)[0] == 'unsat':
                    rec.obligations += 1
                    rec.discharged += 1
                    cache[ck] = True
                    return True
            finally:
                E.pcs = full
            rec.obligations += 1
            r, env = E.query(b)
            if r == 'unsat':
                rec.discharged += 1
                return True
            if r == 'sat':
                rec.cand(dict(cand, key=key + ':' + what, what=what, env=env, **k))
                return False
            rec.unknown[key + ':' + what] = rec.unknown.get(key + ':' + what, 0) + 1
            return None
        ok = True
        pend = []
        for t in main + ws:
            if t.dead not in (None, 'park', 'bound', 'next'):
                rec.cand(dict(cand, key=key + ':' + t.dead, what=t.dead, env={}))
                return
            tick = {}
            rm = [e for e in t.ev if e[0] == 'rmw']
            for e in rm:
                if e[2] != 'add' or e[3] != 1:
                    raise Unsupported('atomic %s of %s' % (e[2], e[3]))
                tick[tvar(e[4])] = e
            lastleaf = None
            for i, e in enumerate(t.ev):
                if e[0] != 'leaf':
                    continue
                S, L, wrong = self.interval(e[1])
                E.pcs[:] = t.pcs
                bad(wrong, 'operands', core=t.core)
                bad(X.bnot(X.balls([X.ule(S, n, 64), X.ule(1, L, 64), X.ule(L, X.sub(n, S, 64), 64)])), 'range', core=t.core)
                tv = [x for x in sorted(v[0] if type(v) is tuple else v for v in X.vars_of(S)) if x in tick]
                if len(tv) != 1:
                    rec.cand(dict(cand, key=key + ':ticket', what='ticket', env={}, why='interval depends on %d draws' % len(tv)))
                    ok = False
                    continue
                te = tick[tv[0]]
                own = [c for c in t.pcs[P:] if tv[0] in names(c)]
                ren = {tv[0]: 'V'}
                S1, L1 = rn(S, ren), rn(L, ren)
                vars_pre = set().union(*[names(c) for c in prepcs]) | names(n) | {'V'}
                conds = []
                for c in own:
                    c1 = rn(c, ren)
                    if names(c1) <= vars_pre | set(self.qnames()):
                        conds.append(c1)
                d = cells.get(te[1])
                if d is None:
                    d = cells[te[1]] = dict(S=S1, L=L1, valid=conds, init=None, q=[c for c in t.pcs[P:] if names(c) & self.qnames() and not names(c) & {tvar(e2[4]) for e2 in rm}])
                else:
                    if d['S'] is not S1 or d['L'] is not L1:
                        E.pcs[:] = [rn(c, ren) for c in t.pcs]
                        bad(X.bnot(X.band(X.eq(d['S'], S1, 64), X.eq(d['L'], L1, 64))), 'steal', core=t.core)
                pend.append((t, i, te))
        if not cells:
            rec.cand(dict(cand, key=key + ':nowork', what='nowork', env={}))
            return
        # what valid means per cell: keep only conditions every drawing path has (pure bounds), drop the havoc bounds
        for a, d in cells.items():
            d['valid'] = [c for c in d['valid']]
        self.cells = cells
        for t, i, te in pend:
            d = cells[te[1]]
            ren = {tvar(te[4]): 'V'}
            have = set(rn(c, ren) for c in t.pcs)
            miss = [c for c in d['valid'] if c not in have]
            if miss:
                E.pcs[:] = [rn(c, ren) for c in t.pcs]
                bad(X.bnot(X.balls(miss)), 'valid', core=t.core)
        # initial values of the ticket counters
        for t in main:
            for e in t.ev:
                if e[0] == 'rmw' and e[1] in cells and type(e[5]) is int and cells[e[1]]['init'] is None:
                    cells[e[1]]['init'] = e[5]
        snap = main[0].snap
        for a, d in cells.items():
            if d['init'] is None:
                self.skip = True
                d['init'] = E.load(snap, a, self.shared[a])
                self.skip = False
            if type(d['init']) is not int:
                rec.cand(dict(cand, key=key + ':stale', what='stale', env={}, why='a counter starts from what an earlier operation left behind'))
                return
        # every draw that is not followed by its leaf failed the validity test
        for t in main + ws:
            used = set(id(te) for tt, i, te in pend if tt is t)
            draws = [e for e in t.ev if e[0] == 'rmw' and e[1] in cells]
            for k, e in enumerate(draws):
                if id(e) in used:
                    continue
                if t.dead == 'bound' and k == len(draws) - 1:
                    continue
                d = cells[e[1]]
                E.pcs[:] = t.pcs
                bad(fold([rn(c, {'V': tvar(e[4])}) for c in d['valid']]), 'dropped', core=t.core)
        # one completion per leaf, directly tied to it: after it and before the next draw
        comp = None
        for t in main + ws:
            seq = [e for e in t.ev if e[0] in ('leaf', 'rmw')]
            for i, e in enumerate(seq):
                if e[0] != 'leaf':
                    continue
                after = []
                for f in seq[i + 1:]:
                    if f[0] == 'leaf' or f[1] in cells:
                        break
                    after.append(f[1])
                end = i + 1 + len(after) == len(seq)
                if t.dead == 'bound' and end:
                    continue
                comp = set(after) if comp is None else comp & set(x for x in after if after.count(x) == 1)
        ctrs = set(a for t in main + ws for e in t.ev if e[0] == 'rmw' for a in [e[1]]) - set(cells)
        done = None
        for a in sorted(comp or ()):
            fine = True
            for t in main + ws:
                prev = None
                for e in t.ev:
                    if e[0] == 'leaf':
                        prev = 'leaf'
                    elif e[0] == 'rmw' and e[1] == a:
                        if prev != 'leaf':
                            fine = False
                        prev = None
                    elif e[0] == 'rmw' and e[1] in cells:
                        prev = None
            if fine:
                done = a
                break
        rec.obligations += 1
        if done is None:
            rec.cand(dict(cand, key=key + ':completion', what='completion', env={}, why='no counter is incremented exactly once after each unit'))
            return
        rec.discharged += 1
        # claim counters: incremented exactly once between a valid draw and its leaf, never otherwise
        claims = set()
        for a in ctrs - {done}:
            fine = True
            for t in main + ws:
                st_ = None
                for e in t.ev:
                    if e[0] == 'rmw' and e[1] in cells:
                        st_ = 'drawn'
                    elif e[0] == 'rmw' and e[1] == a:
                        if st_ != 'drawn':
                            fine = False
                        st_ = 'claimed'
                    elif e[0] == 'leaf':
                        if st_ != 'claimed':
                            fine = False
                        st_ = None
                # a failing draw must not claim: checked by order above only when a leaf follows
            for t in main + ws:
                used = set(id(te) for tt, i, te in pend if tt is t)
                cur = None
                for j, e in enumerate(t.ev):
                    if e[0] == 'rmw' and e[1] in cells:
                        cur = id(e)
                    elif e[0] == 'rmw' and e[1] == a and cur not in used and t.dead not in ('bound', 'next'):
                        fine = False
            if fine:
                claims.add(a)
        # number of valid tickets per cell
        E.pcs[:] = prepcs
        tot = 0
        defs = []
        qd = []
        for a, d in sorted(cells.items()):
            L = X.zext(X.var('L_%x' % a, TW), TW, 64)
            d['cnt'] = L
            for c in d['q']:
                if c not in qd and c not in prepcs:
                    qd.append(c)
            v = d['valid']
            at = lambda x: fold([subst(c, {'V': X.extract(x, TW - 1, 0)}) for c in v])
            defs += [X.ule(d['init'], L, 64), X.ult(L, 1 << TW, 64), X.bnot(at(L)), X.bor(X.eq(L, d['init'], 64), at(X.sub(L, 1, 64)))]
            tot = X.add(tot, X.sub(L, d['init'], 64), 64)
            V = X.zext(X.var('V', TW), TW, 64)
            E.pcs[:] = prepcs + qd + [X.ule(d['init'], V, 64), X.ult(V, (1 << TW) - 1, 64)]
            bad(X.band(at(X.add(V, 1, 64)), X.bnot(fold(v))), 'monotone')
            E.pcs[:] = prepcs + qd
            bad(subst(fold(v), {'V': (1 << TW) - 1}), 'bounded')
        # disjointness
        cl = sorted(cells.items())
        for i, (a, d) in enumerate(cl):
            for b, e in cl[i:]:
                if a == b and d['init'] is None:
                    continue
                V1, V2 = X.zext(X.var('V', TW), TW, 64), X.zext(X.var('W', TW), TW, 64)
                ren = {'V': 'W'}
                S2, L2 = rn(e['S'], ren), rn(e['L'], ren)
                E.pcs[:] = prepcs + qd + d['valid'] + [rn(c, ren) for c in e['valid']] + [
                    X.ule(d['init'], V1, 64), X.ule(e['init'], V2, 64)]
                if a == b:
                    E.pcs.append(X.ult(V1, V2, 64))
                bad(X.band(X.ult(d['S'], X.add(S2, L2, 64), 64), X.ult(S2, X.add(d['S'], d['L'], 64), 64)), 'overlap')
        # coverage
        E.pcs[:] = prepcs + qd
        self.coverage(rec, key, cand, n, cl, prepcs + qd, bad)
        # returning: all units complete; not stopping early
        def start(a):
            self.skip = True
            v = E.load(snap, a, self.shared[a])
            self.skip = False
            return v
        dinit = start(done)
        nret = 0
        for t in main:
            if t.dead is not None:
                continue
            nret += 1
            E.pcs[:] = t.pcs + [c for c in qd if c not in t.pcs] + defs
            lds = [e for e in t.ev if e[0] == 'ld' and e[1] == done]
            if not lds:
                rec.cand(dict(cand, key=key + ':return', what='return', env={}))
            else:
                bad(X.ult(lds[-1][2], X.add(tot, dinit, 64), 64), 'return')
            failed = set()
            used = set(id(te) for tt, i, te in pend if tt is t)
            for e in t.ev:
                if e[0] == 'rmw' and e[1] in cells and id(e) not in used:
                    failed.add(e[1])
            if failed >= set(cells):
                rec.obligations += 1
                rec.discharged += 1
                continue
            ge = [X.ult(e[2], X.add(tot, start(e[1]), 64), 64) for e in t.ev if e[0] == 'ld' and e[1] in claims]
            bad(fold(ge) if ge else 1, 'early')
            # the wait condition must be reachable once everything is done: the loop leaves when completed == total
        rec.reach('the caller returns', nret > 0)
        # the caller leaves the wait loop as soon as the number of completions equals the number of units
        for t in main:
            if t.dead != 'bound':
                continue
            lds = [e for e in t.ev if e[0] == 'ld' and e[1] == done]
            if t.ev and t.ev[-1][0] == 'ld' and t.ev[-1][1] == done and len(lds) >= 2:
                E.pcs[:] = t.pcs + [c for c in qd if c not in t.pcs] + defs
                bad(X.eq(lds[0][2], X.add(tot, dinit, 64), 64), 'hang')
        E.pcs[:] = []
        return dict(cells=cells, tot=tot, defs=defs, q=qd, done=done)

    def qnames(self):
        s = set()
        for q, r, _ in self.divs.values():
            s.add(tvar(q))
            s.add(tvar(r))
        return s

    def coverage(self, rec, key, cand, n, cl, pcs, bad):
        E = self.E
        i = X.zext(X.var('I', NBITS), NBITS, 64)
        w = []
        neg = [X.ult(i, n, 64)]
        for a, d in cl:
            V = X.sub(X.zext(X.var('V_%x' % a, NBITS + 2), NBITS + 2, 64), NMAX * 2, 64)
            at = lambda e: subst(e, {'V': X.extract(V, TW - 1, 0)})
            s0 = subst(d['S'], {'V': 0})
            step = X.sub(subst(d['S'], {'V': 1}), s0, 64)
            E.pcs[:] = pcs
            r, m = E.query(want=step) if type(step) is not int else ('sat', {'@': step})
            if r != 'sat':
                continue
            sv = X.sx(m['@'], 64)
            mag = abs(sv)
            V0 = X.zext(X.var('V', TW), TW, 64)
            lin = lambda v: X.add(s0, X.mul(v, sv & M64, 64), 64)
            if mag == 0 or E.query(X.band(fold(d['valid']), X.bnot(X.eq(lin(V0), d['S'], 64))), model=False)[0] != 'unsat':
                continue          # no witness tickets from this counter
            # V: the ticket whose unit would contain i if the units were laid out at multiples of the step
            w += [X.ult(X.sub(i, lin(V), 64), mag, 64)]
            valid = fold([at(c) for c in d['valid']])
            hit = X.balls([X.ult(V, 1 << TW, 64), valid, X.ule(d['init'], V, 64), X.ult(X.sub(i, lin(V), 64), at(d['L']), 64)])
            neg.append(X.bnot(hit))
        # the witnesses exist for every i (integer division); ask for an i no witness covers
        E.pcs[:] = pcs + w
        rec.obligations += 1
        r, env = E.query(fold(neg))
        if r == 'unsat':
            rec.discharged += 1
            return
        if r != 'sat':
            rec.unknown[key + ':coverage'] = 1
            return
        rec.cand(dict(cand, key=key + ':coverage', what='coverage', env=env))


def tvar(x):
    return x.a[0].a[0] if x.op != 'var' else x.a[0]


_names = {}


def names(e):
    if type(e) is int:
        return frozenset()
    r = _names.get(e)
    if r is None:
        r = _names[e] = frozenset(v[0] for v in X.vars_of(e))
    return r


def rn(e, m):
    if type(e) is int:
        return e
    return X.rename(e, lambda s: m.get(s, s))


def subst(e, m):
    return X.substitute(e, m)


def divc(e, m):
    """e / m for a power of two m, pushed into sums and products with constants (only a definition: callers verify it)"""
    if m == 1:
        return e
    if type(e) is int:
        return (X.sx(e, 64) // m) & M64
    if e.op == 'add':
        r = 0
        for a in e.a:
            r = X.add(r, divc(a, m), 64)
        return r
    if e.op == 'neg':
        return X.neg(divc(e.a[0], m), 64)
    if e.op == 'mul' and len(e.a) == 2:
        for i in (0, 1):
            if type(e.a[i]) is int and e.a[i] % m == 0:
                return X.mul(e.a[1 - i], divc(e.a[i], m), 64)
    return X.ashr(e, m.bit_length() - 1, 64)
