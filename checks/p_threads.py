"""P07 threaded element-wise loops, P08 threaded reductions, P10/P11 work distribution, P12 hand-off to the workers."""
from common import *
import loops
import specs
import real
from threads import *
from engine.capi import ELSIZE, KIND

POW = lambda s: s and (abs(s) & (abs(s) - 1)) == 0


def method(ctx, st, name, *vals):
    C, E = ctx.C, ctx.E
    r = E.callp(st, C.methods[name][0], [1, C.tuple(st, [C.long(st, v) for v in vals])])
    if r == 0:
        raise Unsupported('%s failed: %s' % (name, C.err))
    return r


def leaves(t, off=0):
    """(offset, size) of the scalars of a type"""
    if t[0] == 'struct':
        for i in range(len(t[1])):
            o, e = llir.fieldoff(t, i)
            for x in leaves(e, off + o):
                yield x
    elif t[0] == 'arr':
        z = llir.sizeof(t[2])
        for i in range(t[1]):
            for x in leaves(t[2], off + i * z):
                yield x
    else:
        yield off, llir.sizeof(t)


def used_slots(ctx, st, count=4):
    """the work items that are handed out next hold whatever an earlier operation left in them (the ring is reused)"""
    E = ctx.E
    for k in sorted(ctx.mod.typesrc):
        try:
            t = ctx.mod.named(k)
        except Exception:
            continue
        if t[0] != 'struct':
            continue
        for i in range(len(t[1])):
            o, e = llir.fieldoff(t, i)
            if e[0] != 'arr' or e[1] < 256 or e[2][0] != 'struct' or llir.sizeof(e[2]) < 128:
                continue
            size, z = llir.sizeof(t), llir.sizeof(e[2])
            for ob in list(st.mem.values()) + list(E.gobjs.values()):
                if ob.size != size or ob.freed:
                    continue
                for q in range(count):
                    for f, n in leaves(e[2], o + q * z):
                        E.store(st, ob.base + f, X.zext(X.var('stale_%d' % (f - o), min(26, n * 8)), min(26, n * 8), n * 8), n)
                ctx.slots = True


def configured(ctx, w=None, zig=False, atop=True):
    if not hasattr(ctx, 'usedst'):
        ctx.usedst = ctx.E.forkstate(ctx.st, 1)
        used_slots(ctx, ctx.usedst)
    st = ctx.E.forkstate(ctx.usedst, 1)
    if w is not None:
        method(ctx, st, 'thread_setworkers', w)
    if zig:
        method(ctx, st, 'thread_zigzag')
    if not atop:
        method(ctx, st, 'atop_disable')
    return st


PB = 46


def ptrvars(same):
    """operand addresses; same: tuple naming the operands that are the same array.  Different arrays lie in disjoint regions."""
    seen = []
    out = []
    for nm in same:
        if nm not in seen:
            seen.append(nm)
        out.append(X.add((seen.index(nm) + 1) << 48, X.zext(X.var('P' + nm, PB), PB, 64), 64))
    return out


def stub_args(ctx, st, ps, steps, n):
    E = ctx.E
    k = len(ps)
    a = E.newobj(st, 8 * k, 8, 'args', init=list(ps))
    d = E.newobj(st, 8, 8, 'dims', init=[n])
    s = E.newobj(st, 8 * k, 8, 'steps', init=[x & M64 for x in steps])
    return [a, d, s, 0x5a5a0]


def elem_leaf(ps, steps, pnames):
    def leaf(E, st, name, args):
        if not any(type(a) is not int and names(a) & pnames for a in args):
            return None
        k = len(ps)
        if len(args) != 2 * k + 1:
            raise Unsupported('inner function of %d arguments' % len(args))
        return Leaf(name, args, dict(kind='vec', ptrs=args[:k], n=args[k], steps=args[k + 1:]))
    return leaf


def elem_interval(ps, steps, only=None):
    """-> f(leaf) = (S, len, wrong)"""
    j = [i for i in range(len(ps) - 1, -1, -1) if POW(steps[i])][0]

    def f(lf):
        i = lf.info
        s = steps[j]
        o = X.sub(i['ptrs'][j], ps[j], 64)
        if s < 0:
            o = X.neg(o, 64)
        m = abs(s)
        S = divc(o, m)      # any definition will do: what S has to satisfy is checked below
        bad = 0
        for k in range(len(ps)):
            bad = X.bor(bad, X.bnot(X.eq(i['ptrs'][k], X.add(ps[k], X.mul(S, steps[k] & M64, 64), 64), 64)))
            bad = X.bor(bad, X.bnot(X.eq(i['steps'][k], steps[k] & M64, 64)))
        if i['kind'] == 'old':
            bad = X.bor(bad, X.bnot(X.eq(i['data'], 0x5a5a0, 64)))
        if only is not None and lf.name not in only:
            bad = 1
        return S, i['n'], bad
    return f


NSYM = X.zext(X.var('n', NBITS), NBITS, 64)


def nrange(lo=65536):
    return [X.ule(lo, NSYM, 64)]


def serial_names(ctx, name, sig, ps, steps, atop=True):
    """the inner functions the stub uses when it does not thread"""
    E = ctx.E
    st = configured(ctx, atop=atop)
    par = Par(ctx, st)
    par.leaf_fn = elem_leaf(ps, steps, set().union(*[names(p) for p in ps]))
    par.interval = elem_interval(ps, steps)
    pc0 = list(E.pcs)
    E.pcs[:] = [X.ule(1, NSYM, 64), X.ult(NSYM, 65536, 64)]
    par.install()
    try:
        ts = par.run_main(lambda s: E.callp(s, ctx.C.replaced[(name, sig)], stub_args(ctx, s, ps, steps, NSYM)))
    finally:
        par.uninstall()
        E.pcs[:] = pc0
    return ts


def elem_job(ctx, rec, key, name, sig, same, steps, w, zig, atop, K, cores, tail):
    """one installed loop, all n >= 65536, any interleaving"""
    E, C = ctx.E, ctx.C
    ps = ptrvars(same)
    st = configured(ctx, w, zig, atop)
    par = Par(ctx, st, K)
    par.tail = tail
    only = set()
    for t in serial_names(ctx, name, sig, ps, steps, atop):
        only |= set(e[1].name for e in t.ev if e[0] == 'leaf')
    only.add('old:%s:%s' % (name, ','.join(map(str, sig))))
    par.leaf_fn = elem_leaf(ps, steps, set().union(*[names(p) for p in ps]))
    par.interval = elem_interval(ps, steps, only)
    E.pcs[:] = nrange()
    par.install()
    cand = dict(ufunc=name, sig=list(sig), same=same, steps=list(steps), w=w, zig=zig, atop=atop)
    try:
        serial, groups = par.explore(lambda s: E.callp(s, C.replaced[(name, sig)], stub_args(ctx, s, ps, steps, NSYM)), cores)
        for t in serial:
            whole(rec, E, key, cand, t, par, NSYM)
        for prepcs, main, ws in groups:
            par.finish(rec, key, cand, NSYM, prepcs, main, ws)
        rec.reach('a loop is split over threads', bool(groups))
        rec.notes['traces'] = sum(len(m) + len(w_) for _, m, w_ in groups)
        return groups
    finally:
        par.uninstall()
        E.pcs[:] = []


def whole(rec, E, key, cand, t, par, n):
    """a run that was not split: exactly one call for all elements"""
    lv = [e[1] for e in t.ev if e[0] in ('leaf', 'final')]
    E.pcs[:] = t.pcs
    rec.obligations += 1
    if t.dead is not None or len(lv) != 1:
        r, m = E.query(1)
        if r != 'unsat':
            rec.cand(dict(cand, key=key + ':serial', what='serial', env=m or {}))
            return
        rec.discharged += 1
        return
    rec.discharged += 1
    S, L, wrong = par.interval(lv[0])
    rec.oblige(E, X.bor(wrong, X.bnot(X.band(X.eq(S, 0, 64), X.eq(L, n, 64)))), dict(cand, key=key + ':serial', what='serial'), timeout=60000)


# ---------------------------------------------------------------- P07
def patterns(sig):
    e = [ELSIZE[t] for t in sig]
    if len(sig) == 3:
        P = [('012', e), ('012', [e[0], 0, e[2]]), ('012', [0, e[1], e[2]]), ('012', [-e[0], -e[1], -e[2]]), ('012', [2 * e[0], e[1], 2 * e[2]]), ('001', e)]
        if e[0] == e[2]:
            P += [('010', e), ('011', e), ('010', [-e[0], e[1], -e[2]])]
    else:
        P = [('01', e), ('01', [2 * e[0], e[1]]), ('01', [-e[0], -e[1]]), ('01', [0, e[1]]), ('01', [e[0], 2 * e[1]])]
        if e[0] == e[1]:
            P.append(('00', e))
    return P


def legal_job(ctx, rec, key, name, sig, steps, atop):
    """whatever the operands are: the loop is split over threads only if no element written by one part is read or written by
    another"""
    E, C = ctx.E, ctx.C
    k = len(sig)
    ps = [X.add(1 << 48, X.zext(X.var('P%d' % i, PB), PB, 64), 64) for i in range(k)]
    st = configured(ctx, 1, False, atop)
    E.pcs[:] = nrange()
    par = Par(ctx, st, 0)
    par.leaf_fn = elem_leaf(ps, steps, set().union(*[names(p) for p in ps]))
    par.interval = elem_interval(ps, steps) if any(steps) else None
    if k == 3 and steps[0] == 0 and steps[2] == 0:
        E.pcs.append(X.bnot(X.eq(ps[0], ps[2], 64)))        # a reduce: P08
    par.begin = lambda s, a: (_ for _ in ()).throw(PathDead('wake'))
    par.install()
    es = [ELSIZE[t] for t in sig]
    I, J = (X.zext(X.var(c, NBITS), NBITS, 64) for c in 'ij')
    different = X.balls([X.ult(I, NSYM, 64), X.ult(J, NSYM, 64), X.bnot(X.eq(X.lshr(I, 14, 64), X.lshr(J, 14, 64), 64))])

    def touch(a, sa, i, ea, b, sb, j, eb):
        p = X.add(a, X.mul(i, sa & M64, 64), 64)
        q = X.add(b, X.mul(j, sb & M64, 64), 64)
        return X.band(X.slt(p, X.add(q, eb, 64), 64), X.slt(q, X.add(p, ea, 64), 64))
    cand = dict(ufunc=name, sig=list(sig), steps=list(steps), atop=atop, legal=1)
    try:
        split = 0
        for t in par.run_main(lambda s: E.callp(s, C.replaced[(name, sig)], stub_args(ctx, s, ps, steps, NSYM))):
            lv = [e for e in t.ev if e[0] == 'leaf']
            if t.dead == 'wake':
                split += 1
                E.pcs[:] = t.pcs + [different]
                for m in range(k):
                    b = touch(ps[-1], steps[-1], I, es[-1], ps[m], steps[m], J, es[m])
                    if m == k - 1 and steps[-1] and abs(steps[-1]) >= es[-1]:
                        continue        # NumPy never hands out outputs whose elements overlap each other
                    rec.obligations += 1
                    r, env = E.query(b)
                    if r == 'unsat':
                        rec.discharged += 1
                    elif r == 'sat':
                        rec.cand(dict(cand, key=key + ':conflict', what='conflict', env=env, operand=m))
                    else:
                        rec.unknown[key + ':conflict'] = 1
            elif t.dead is None and par.interval:
                whole(rec, E, key, cand, t, par, NSYM)
        rec.reach('a legal loop is split', split > 0)
    finally:
        par.uninstall()
        E.pcs[:] = []


def par_replay(pid, name, body, cases, modes=(0, 1, 2, 3), native=False):
    import thr_replay
    sc = thr_replay.script(body, cases, modes)
    rc, out, err = real.python(sc, timeout=600, native=native)
    if rc == 0 or (rc is not None and rc != 3):
        return None, False, 'the real module agrees with NumPy under all replayed schedules (exit %s) %s' % (rc, err[-200:])
    p = os.path.join(outdir(pid), '%s_%s.json' % (pid, ''.join(ch if ch.isalnum() else '_' for ch in name)[:80]))
    txt = (out.strip() or 'no answer within 600 s')[-600:]
    json.dump(dict(property=pid, script=sc, native=native, what=txt, run='python3-vt /verif/checks/replay.py ' + p), open(p, 'w'), indent=1)
    return p, True, txt


LENS = [65536, 65537, 81919, 81920, 131072, 200001]


class ThreadCheck(Check):
    ncpu = 16
    batch = None
    batch_timeout = 400
    total_timeout = 450
    max_replays = 6
    max_viol = 1
    tries = 2
    replay_limit = 500

    def build(self):
        return build.build_ir(extra_src=[os.path.join(VERIF, 'checks', 'native', 'h_threads.cpp')])

    def group(self, c):
        return '%s:%s' % (c.get('ufunc', '?'), c['what'])


PAR_ASSUME = [
    'one parallel section at a time: no second Python thread starts another section while one is running (NumPy drops the GIL inside a loop; concurrent sections share the ring)',
    'rely-guarantee: each thread is executed symbolically on its own, every value it reads from a shared counter is any value the other threads may have left there (counters only grow); '
    'sequentially consistent memory; the reads of the item\'s plain fields see what the caller wrote before it woke the workers',
    'each thread is followed through K units of work (K is 1 or 2) and, where stated, until it stops; the state a thread keeps between units is the item pointer and its core number',
    'a wake-up may be late but is not lost (futex)']


class P07(ThreadCheck):
    """threaded element-wise loops"""
    pid = 'P07'
    assumptions = PAR_ASSUME + ['the outputs of one loop do not overlap each other (NumPy guarantees this)']

    def jobs(self, ctx):
        J = []
        A15 = list(range(1, 16))
        stubs = sorted(ctx.C.replaced)
        th = ctx.tier == 'thorough'
        for i, (nm, sig) in enumerate(stubs):
            P = patterns(sig)
            same, steps = P[i % len(P)]
            w = (1, 2, 1, 3, 1, 2)[i % 6]
            J.append(('%s:%s' % (nm, ','.join(map(str, sig))), elem_job, (nm, sig, same, steps, w, i % 2 == 1, i % 3 != 2, 1, [1, 2, 3, 4, 8, 15][:w + 2], False), w))
        deep = [('add', (7, 7, 7)), ('less', (5, 5, 0)), ('sqrt', (12, 12)), ('sin', (11, 11)), ('subtract', (12, 12, 12))]
        deep = [d for d in deep if d in ctx.C.replaced]
        for nm, sig in deep:
            P = patterns(sig)
            for x, (w, zig, atop, K, tail) in enumerate(((1, False, True, 2, True), (2, True, True, 1, True), (2, False, False, 2, False), (3, False, True, 1, True), (4, True, False, 1, False),
                                                         (5, False, True, 1, False), (7, True, True, 1, False), (8, False, True, 1, False), (11, True, True, 1, False),
                                                         (13, False, False, 1, False), (14, True, True, 1, False), (14, False, True, 1, False))):
                if not th and nm in ('less', 'subtract') and w not in (2, 14, 7):
                    continue
                same, steps = P[x % len(P)]
                J.append(('%s:%s@w%d%s%s' % (nm, ','.join(map(str, sig)), w, 'z' if zig else '', '' if atop else 'n'), elem_job,
                          (nm, sig, same, steps, w, zig, atop, K, A15, tail), 3 * w * (2 if tail else 1)))
        for nm, sig in deep:
            e = [ELSIZE[t] for t in sig]
            es = e[0]
            if len(sig) == 3:
                S = [(a * e[0], b * e[1], o * e[2]) for a, b, o in ((1, 1, 1), (1, 0, 1), (0, 1, 1), (1, 1, 0), (0, 0, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (-1, 1, 1), (1, 1, -1), (-1, -1, -1), (2, 2, 2), (0, 1, 0))]
            else:
                S = [(a * e[0], o * e[1]) for a, o in ((1, 1), (0, 1), (1, 0), (2, 1), (1, 2), (-1, 1), (1, -1), (-1, -1), (2, 2), (0, 0))]
            for x, st in enumerate(S):
                J.append(('%s:%s!%s' % (nm, ','.join(map(str, sig)), ','.join(map(str, st))), legal_job, (nm, sig, st, x % 4 != 3), 2))
        return J

    def replay(self, ctx, c):
        n = (c.get('env') or {}).get('n')
        ns = ([n] if n and n < 3000000 else []) + LENS
        if c.get('legal'):
            return self.replay_overlap(ctx, c)
        cs = [dict(ufunc=c['ufunc'], sig=c['sig'], same=c['same'], steps=c['steps'], ns=ns, workers=sorted(set([c['w'], 1, 3, 7, 14])), tol=1)]
        sig = tuple(c['sig'])
        for same, steps in patterns(sig):
            if same in ('010', '011', '00') and same != c['same']:
                cs.append(dict(cs[0], same=same, steps=steps))
                break
        return par_replay(self.pid, self.group(c), __import__('thr_replay').ELEM, cs)

    def replay_overlap(self, ctx, c):
        import thr_replay
        env = c['env'] or {}
        off = [env.get('P%d' % i, 0) - env.get('P%d' % (len(c['sig']) - 1), 0) for i in range(len(c['sig']))]
        return par_replay(self.pid, self.group(c), thr_replay.OVERLAP, [dict(ufunc=c['ufunc'], sig=c['sig'], steps=c['steps'], off=off, n=max(env.get('n', 65536), 65536), operand=c['operand'])])

    def bounds(self, ctx):
        return ('every hooked loop; n any length in [65536, 2^40); any operand addresses; any interleaving of the caller and up to 15 workers; worker counts 1-5, 7, 8, 11, 13, 14; zigzag and atop on/off; '
                'K=1-2 units per thread')


# ---------------------------------------------------------------- P08
ACC = ('add', 'multiply')


def red_args(ctx, st, sig, step, n):
    E = ctx.E
    es = ELSIZE[sig[0]]
    op = E.newobj(st, es, 16, 'op1', init=[X.var('start', es * 8)] if False else None)
    E.store(st, op, X.var('start', es * 8), es)
    p = X.add(1 << 48, X.zext(X.var('P1', PB), PB, 64), 64)
    a = E.newobj(st, 24, 8, 'args', init=[op, p, op])
    d = E.newobj(st, 8, 8, 'dims', init=[n])
    s = E.newobj(st, 24, 8, 'steps', init=[0, step & M64, 0])
    return op, p, [a, d, s, 0x5a5a0]


def red_job(ctx, rec, key, name, sig, step, w, zig, atop, K, cores, tail):
    E, C = ctx.E, ctx.C
    es = ELSIZE[sig[0]]
    st = configured(ctx, w, zig, atop)
    op, p, args = red_args(ctx, st, sig, step, NSYM)
    pn = names(p)
    cand = dict(ufunc=name, sig=list(sig), step=step // es, w=w, zig=zig, atop=atop)
    # the functions used when the reduce is not split
    only = {'old:%s:%s' % (name, ','.join(map(str, sig)))}
    par = Par(ctx, st, K)
    par.tail = tail

    def leaf(E_, s, nm, a):
        if len(a) != 5:
            return None
        return mk(s, nm, a[0], a[1], a[2], a[3], a[4])

    def mk(s, nm, src, out, start, n, stp):
        inf = dict(src=src, out=out, start=start, n=n, step=stp, kind='red')
        if type(src) is int and any(b <= src < b + (1 << 44) for b, _ in par.allocs):
            inf['final'] = True
        inf['sval'] = None
        if type(start) is int and not inf.get('final'):
            try:
                inf['sval'] = E.load(s, start, es)
            except Exception:
                pass
        return Leaf(nm, a_(src, out, start, n, stp), inf)

    def a_(*x):
        return list(x)

    def old(E_, s, nm, sg, a):
        ps = [E.load(s, X.add(a[0], 8 * i, 64), 8) for i in range(3)]
        n = E.load(s, a[1], 8)
        ss = [E.load(s, X.add(a[2], 8 * i, 64), 8) for i in range(3)]
        lf = mk(s, 'old:%s:%s' % (nm, ','.join(map(str, sg))), ps[1], ps[2], None, n, ss[1])
        lf.info['old'] = dict(same=ps[0] is ps[2] or (type(ps[0]) is int and ps[0] == ps[2]), s0=ss[0], s2=ss[2], data=a[3], out=ps[0])
        v = [e for e in par.ev if e[0] == 'vst']
        lf.info['vst'] = v[-1] if v else None
        par.add_leaf(lf)

    def interval(lf):
        i = lf.info
        o = X.sub(i['src'], p, 64)
        S = divc(X.neg(o, 64) if step < 0 else o, abs(step))
        bad = X.bnot(X.band(X.eq(i['src'], X.add(p, X.mul(S, step & M64, 64), 64), 64), X.eq(i['step'], step & M64, 64)))
        if lf.name not in only:
            bad = 1
        if 'old' in i:
            o_ = i['old']
            bad = X.bor(bad, X.bnot(X.balls([X.eq(i['old']['out'], i['out'], 64), X.eq(o_['s0'], 0, 64), X.eq(o_['s2'], 0, 64), X.eq(o_['data'], 0x5a5a0, 64)])))
        return S, i['n'], bad
    par.leaf_fn = leaf
    par.interval = interval
    par.install()
    C.oldloop_handler = old
    try:
        # unsplit: one call, starting from and writing to the output element
        E.pcs[:] = [X.ule(1, NSYM, 64), X.ult(NSYM, 65536, 64)]
        for t in par.run_main(lambda s: E.callp(s, C.replaced[(name, sig)], args)):
            lv = [e[1] for e in t.ev if e[0] == 'leaf']
            only |= set(l.name for l in lv)
            single(rec, E, key, cand, t, par, interval, op)
        E.pcs[:] = nrange()
        serial, groups = par.explore(lambda s: E.callp(s, C.replaced[(name, sig)], args), cores)
        for t in serial:
            single(rec, E, key, cand, t, par, interval, op)
        for prepcs, main, ws in groups:
            splittable(ctx, rec, key, cand, name, sig)
            r = par.finish(rec, key, cand, NSYM, prepcs, main, ws)
            for t in main + ws:
                slots(ctx, rec, key, cand, par, name, sig, t, interval, op, es)
            for t in main:
                if t.dead is None:
                    combine(ctx, rec, key, cand, par, t, op, es, only, r)
        rec.reach('a reduce was explored', bool(serial or groups))
        rec.notes.setdefault('split', {})
        if groups:
            rec.reach('a reduce is split over threads')
    finally:
        par.uninstall()
        E.pcs[:] = []


def need(rec, E, bad, cand, key, what):
    rec.obligations += 1
    r, env = E.query(bad)
    if r == 'unsat':
        rec.discharged += 1
    elif r == 'sat':
        rec.cand(dict(cand, key=key + ':' + what, what=what, env=env))
    else:
        rec.unknown[key + ':' + what] = rec.unknown.get(key + ':' + what, 0) + 1


def single(rec, E, key, cand, t, par, interval, op):
    whole(rec, E, key, cand, t, par, NSYM)
    for e in t.ev:
        if e[0] == 'leaf':
            i = e[1].info
            E.pcs[:] = t.pcs
            b = X.bnot(X.eq(i['out'], op, 64))
            if i['start'] is not None:
                b = X.bor(b, X.bnot(X.eq(i['start'], op, 64)))
            need(rec, E, b, cand, key, 'serial-output')


_alg = {}


def splittable(ctx, rec, key, cand, name, sig):
    """the operation can be re-associated: decided by the solver on the element semantics"""
    w = ELSIZE[sig[0]] * 8
    k = (name, sig)
    if k not in _alg:
        _alg[k] = 'unsat'
        if name not in ACC or sig[0] == 0:
            a, b, c = (X.var('op_' + x, w) for x in 'abc')
            if sig[0] == 0:
                a, b, c = (X.zext(X.var('op_' + x, 1), 1, 8) for x in 'abc')
            f = lambda x, y: specs.spec(name, sig, [x, y])
            r1 = f(a, b)
            if r1 is None:
                _alg[k] = 'sat'
            else:
                same = lambda x, y: specs.same('minimum' if KIND[sig[0]] == 'f' else name, sig[0], x, y)
                bad = X.bor(X.bnot(same(f(f(a, b), c), f(a, f(b, c)))), X.bnot(same(f(a, f(a, b)), f(a, b))))
                s = z3.SolverFor('QF_UFBV')
                s.set('timeout', 20000)
                s.add(X.zb(bad))
                rec.queries += 1
                _alg[k] = str(s.check())
    rec.obligations += 1
    if _alg[k] == 'unsat':
        rec.discharged += 1
    elif _alg[k] == 'sat':
        rec.cand(dict(cand, key=key + ':split', what='split', env={}))
    else:
        rec.unknown[key + ':split'] = 1


def slots(ctx, rec, key, cand, par, name, sig, t, interval, op, es):
    """each unit starts from a neutral value and leaves its result in the cell that belongs to its block"""
    E = ctx.E
    E.pcs[:] = t.pcs
    for e in t.ev:
        if e[0] != 'leaf':
            continue
        i = e[1].info
        S, L, _ = interval(e[1])
        base, size = t.alloc[-1] if t.alloc else (None, None)
        if base is None:
            rec.cand(dict(cand, key=key + ':buffer', what='buffer', env={}))
            continue
        off = X.sub(i['out'], base, 64)
        need(rec, E, X.bor(X.bnot(X.eq(X.mul(X.lshr(S, 14, 64), es, 64), off, 64)),
                           X.bor(X.bnot(X.eq(X.and_(S, 0x3fff, 64), 0, 64)), X.ult(0x4000, L, 64))), cand, key, 'slot')
        need(rec, E, X.bnot(X.ule(X.add(off, es, 64), size, 64)), cand, key, 'buffer')
        # start value
        sv = i['sval']
        if 'old' in i:
            v = i['vst']
            if v is None:
                rec.cand(dict(cand, key=key + ':start', what='start', env={}))
                continue
            need(rec, E, X.bnot(X.band(X.eq(v[2], off, 64), 1 if v[4] == es else 0)), cand, key, 'start-cell')
            sv = v[3]
        if sv is None:
            rec.cand(dict(cand, key=key + ':start', what='start', env={}))
            continue
        rec.obligations += 1
        if neutral(rec, name, sig, sv):
            rec.discharged += 1
        else:
            rec.cand(dict(cand, key=key + ':start', what='start', env={}))


def neutral(rec, name, sig, sv):
    w = ELSIZE[sig[0]] * 8
    t = sig[0]
    one = {11: 0x3f800000, 12: 0x3ff0000000000000}.get(t, 1)
    if name == 'add' and t != 0:
        return type(sv) is int and (sv == 0 or (KIND[t] == 'f' and sv == 1 << (w - 1)))
    if name == 'multiply' and t != 0:
        return type(sv) is int and sv == one
    if sv is X.var('start', w):
        return True         # f(s, f(s, x)) = f(s, x): see splittable
    x = X.zext(X.var('op_a', 1), 1, 8) if t == 0 else X.var('op_a', w)
    r = specs.spec(name, sig, [sv, x])
    if r is None:
        return False
    s = z3.SolverFor('QF_UFBV')
    s.add(X.zb(X.bnot(specs.same(name, t, r, x))))
    rec.queries += 1
    return str(s.check()) == 'unsat'


def combine(ctx, rec, key, cand, par, t, op, es, only, r):
    E = ctx.E
    E.pcs[:] = t.pcs
    fin = [(k, e[1]) for k, e in enumerate(t.ev) if e[0] == 'final']
    waits = [k for k, e in enumerate(t.ev) if e[0] == 'ld' and r and e[1] == r['done']]
    rec.obligations += 1
    if len(fin) != 1 or (waits and fin[0][0] < waits[-1]) or fin[0][1].name not in only:
        rec.cand(dict(cand, key=key + ':combine', what='combine', env={}))
        return
    rec.discharged += 1
    fr = [k for k, e in enumerate(t.ev) if e[0] == 'free']
    if fr and min(fr) < fin[0][0]:
        rec.cand(dict(cand, key=key + ':free', what='free', env={}))
    i = fin[0][1].info
    base = t.alloc[-1][0]
    C_ = X.add(X.lshr(X.sub(NSYM, 1, 64), 14, 64), 1, 64)
    b = X.bnot(X.balls([X.eq(i['src'], base, 64), X.eq(i['out'], op, 64), X.eq(i['n'], C_, 64), X.eq(i['step'], es, 64)]))
    if i['start'] is not None:
        b = X.bor(b, X.bnot(X.eq(i['start'], op, 64)))
    if 'old' in i:
        o_ = i['old']
        b = X.bor(b, X.bnot(X.balls([X.eq(o_['out'], op, 64), X.eq(o_['s0'], 0, 64), X.eq(o_['s2'], 0, 64), X.eq(o_['data'], 0x5a5a0, 64)])))
    need(rec, E, b, cand, key, 'combine')


class P08(ThreadCheck):
    pid = 'P08'
    assumptions = PAR_ASSUME + ['sums and products are re-associated freely, as NumPy does for floats; a float sum of negative zeros may be either zero']

    def jobs(self, ctx):
        J = []
        A15 = list(range(1, 16))
        red = [(n, s) for n, s in sorted(ctx.C.replaced) if len(s) == 3 and s[0] == s[1] == s[2]]
        for i, (nm, sig) in enumerate(red):
            es = ELSIZE[sig[0]]
            st = (es, 2 * es, -es)[i % 3]
            for atop in (True, False):
                J.append(('%s:%s%s' % (nm, ','.join(map(str, sig)), '' if atop else 'n'), red_job, (nm, sig, st, 1, i % 2 == 1, atop, 1, [1, 2], False), 1))
        deep = [('add', (12, 12, 12)), ('maximum', (5, 5, 5)), ('bitwise_or', (2, 2, 2))]
        for nm, sig in deep:
            if (nm, sig) not in ctx.C.replaced:
                continue
            es = ELSIZE[sig[0]]
            for x, (w, zig, atop, K, tail) in enumerate(((2, True, True, 1, True), (3, False, False, 1, True), (4, False, True, 1, False), (7, True, False, 1, False), (14, True, True, 1, False),
                                                         (14, False, False, 1, False))):
                J.append(('%s:%s@w%d%s' % (nm, ','.join(map(str, sig)), w, '' if atop else 'n'), red_job, (nm, sig, (es, -es, 2 * es)[x % 3], w, zig, atop, K, A15, tail), 3 * w * (2 if tail else 1)))
        return J

    def replay(self, ctx, c):
        n = (c.get('env') or {}).get('n')
        ns = ([n] if n and n < 3000000 else []) + LENS
        import thr_replay
        cs = [dict(ufunc=c['ufunc'], sig=c['sig'], step=s, ns=ns, workers=sorted(set([c['w'], 1, 3, 14])), reps=2) for s in sorted(set([c['step'], 1]))]
        return par_replay(self.pid, self.group(c), thr_replay.REDUCE, cs)

    def bounds(self, ctx):
        return ('every hooked loop called as a reduce; n any length up to 2^40; any input address, steps es, 2es, -es; any interleaving of the caller and up to 15 workers; worker counts 1-4, 7, 14; '
                'zigzag and atop on/off; K=1 units per thread')


# ---------------------------------------------------------------- P10, P11
def chunk_job(ctx, rec, key, which, wake, w, zig, threading, K, cores, tail):
    E, C = ctx.E, ctx.C
    st = configured(ctx, w, zig)
    if not threading:
        E.callp(st, C.methods['thread_disable'][0], [1, C.tuple(st, [])])
    par = Par(ctx, st, K)
    par.tail = tail
    idx = which == 'vp_run_index'

    def h(nm):
        def f(E_, s, a):
            if nm == 'vp_chunk':
                par.add_leaf(Leaf(nm, a, dict(S=a[2], n=a[3], arg=a[0])))
            else:
                par.add_leaf(Leaf(nm, a, dict(S=a[2], n=1, arg=a[0])))
            return 0
        return f
    par.interval = lambda lf: (lf.info['S'], lf.info['n'], X.bnot(X.eq(lf.info['arg'], 0x7777, 64)))
    par.install()
    for nm in ('vp_chunk', 'vp_index'):
        E.override[nm] = h(nm)
    top = 1 << 29 if idx else NMAX
    E.pcs[:] = [X.ult(NSYM, top, 64), X.ule(1, NSYM, 64)]
    cand = dict(ufunc=which, w=w, zig=zig, wake=wake, threading=threading)
    try:
        go = lambda s: E.calln(s, which, [X.extract(NSYM, 31, 0) if idx else NSYM, 0x7777, wake])
        if idx and not threading:
            # the caller does everything itself, in a loop over the items
            E.pcs[:] = [X.ule(NSYM, 4, 64)]
            par.K = 6
            for t in par.run_main(go):
                E.pcs[:] = t.pcs
                lv = [e[1] for e in t.ev if e[0] == 'leaf']
                need(rec, E, X.bnot(X.eq(len(lv), NSYM, 64)), cand, key, 'serial')
                for q, lf in enumerate(lv):
                    need(rec, E, X.bnot(X.band(X.eq(lf.info['S'], q, 64), X.eq(lf.info['arg'], 0x7777, 64))), cand, key, 'serial')
            rec.reach('a section was explored')
            return
        serial, groups = par.explore(go, cores)
        for t in serial:
            whole(rec, E, key, cand, t, par, NSYM)
        for prepcs, main, ws in groups:
            par.finish(rec, key, cand, NSYM, prepcs, main, ws)
        rec.reach('a section was explored', bool(groups or serial))
        rec.reach('a section is split over threads', bool(groups))
    finally:
        par.uninstall()
        E.pcs[:] = []


class P10(ThreadCheck):
    """DoMultiThreadedChunkWork"""
    pid = 'P10'
    which = 'vp_run_chunk'
    assumptions = PAR_ASSUME

    def jobs(self, ctx):
        J = []
        A15 = list(range(1, 16))
        th = ctx.tier == 'thorough'
        for w in range(1, 15):
            for zig in (False, True):
                for wake in (0, 1, 2, 3, 5, 20):
                    if not th and ((w + zig + wake) % 3 and not (w == 14 and wake == 0)):
                        continue
                    J.append(('%s@w%d%s/%d' % (self.which, w, 'z' if zig else '', wake), chunk_job, (self.which, wake, w, zig, True, 2 if w < 4 else 1, A15, w < 4), 1))
        J.append((self.which + '@off', chunk_job, (self.which, 0, 3, False, False, 2, A15, True), 1))
        return J

    def replay(self, ctx, c):
        import thr_replay
        n = (c.get('env') or {}).get('n')
        lim = 4000000
        ns = ([n] if n and n < lim else []) + ([1, 2, 3, 7, 16, 40, 1000] if self.pid == 'P11' else LENS)
        return par_replay(self.pid, self.group(c), thr_replay.NATIVE, dict(index=int(self.pid == 'P11'), ns=ns, wakes=sorted(set([c['wake'], 0, 1, 5])), off=not c.get('threading', True),
                                                                            workers=sorted(set([c['w'], 1, 2, 3, 14]))), native=True)

    def bounds(self, ctx):
        return ('up to 2^29 items; ' if self.pid == 'P11' else 'any length up to 2^40; ') + 'worker counts 1-14, requested wake-ups 0, 1, 2, 3, 5, 20; zigzag on/off; threading off; any interleaving; K=1-2 units per thread'


class P11(P10):
    pid = 'P11'
    which = 'vp_run_index'


CHECKS = {c.pid: c for c in (P07, P08, P10, P11)}
