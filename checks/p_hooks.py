"""P09: the switches and the ledger; P13: arange."""
from api import *
import loops
import p_sort
from engine import vec
from p_getitem import start, refs, need, model, tag, ranks

Layout = loops.Layout
MODES = ('off', 'ledger', 'ledger+off')
SLOTS = ['sort0', 'sort1', 'sort2', 'argsort0', 'argsort1', 'argsort2', 'argmax', 'argmin', 'fill']
AF = {'fill': 31, 'sort0': 33, 'sort1': 34, 'sort2': 35, 'argsort0': 36, 'argsort1': 37, 'argsort2': 38, 'argmax': 26, 'argmin': 46}


def switch(ctx, st, *names):
    for nm in names:
        ctx.E.callp(st, ctx.C.methods[nm][0], [1, ctx.C.tuple(st, [])])


def mode(ctx, st, m):
    for nm in {'on': (), 'off': ('atop_disable',), 'ledger': ('ledger_enable',), 'ledger+off': ('ledger_enable', 'atop_disable')}[m]:
        switch(ctx, st, nm)


def enabled(ctx, st, what):
    r = ctx.E.callp(st, ctx.C.methods[what + '_isenabled'][0], [1, ctx.C.tuple(st, [])])
    return {ctx.E.gaddr('_Py_TrueStruct'): True, ctx.E.gaddr('_Py_FalseStruct'): False}.get(r)


def same_value(E, a, b, w):
    if a is b or type(a) is int and type(b) is int and a == b:
        return 0
    return X.bnot(X.eq(a, b, w))


def still(ctx, rec, st, m, cand):
    """the switches are as they were set"""
    need(rec, ctx.E, 0 if enabled(ctx, st, 'ledger') == ('ledger' in m) and enabled(ctx, st, 'atop') == ('off' not in m) else 1, cand, 'a switch changed')


# ------------------------------------------------------------ P09, inner loops
def layouts(sig):
    k = len(sig)
    if k == 3:
        L = [Layout('contig', [(0, 0, 1), (1, 0, 1), (2, 0, 1)]), Layout('scalar1', [(0, 0, 0), (1, 0, 1), (2, 0, 1)]), Layout('scalar2', [(0, 0, 1), (1, 0, 0), (2, 0, 1)]),
             Layout('strided', [(0, 0, 2), (1, 0, -1), (2, 0, 3)])]
        if sig[0] == sig[1] == sig[2]:
            L.append(Layout('reduce', [(0, 0, 0), (1, 0, 1), (0, 0, 0)]))
            L.append(Layout('inplace', [(0, 0, 1), (1, 0, 1), (0, 0, 1)]))
    else:
        L = [Layout('contig', [(0, 0, 1), (1, 0, 1)]), Layout('strided', [(0, 0, 2), (1, 0, -1)]), Layout('zero', [(0, 0, 0), (1, 0, 1)])]
    return L


def loop_job(ctx, rec, key, name, sig, ns):
    E, C = ctx.E, ctx.C
    fp = C.replaced[(name, sig)]
    es = [ELSIZE[t] for t in sig]
    k = len(sig)
    calls = []

    def old(E_, st, nm, sg, args):
        a, d, s, data = args
        n = E.load(st, d, 8)
        calls.append((nm, sg, tuple(E.load(st, a + 8 * i, 8) for i in range(k)), n, tuple(E.load(st, s + 8 * i, 8) for i in range(k)), data))
        if n:
            o = E.load(st, a + 8 * (k - 1), 8)
            E.store(st, o, X.var('old_%d' % len(calls), es[-1] * 8), es[-1])
        return 0

    def bytesof(st, base):
        out = []
        for b in sorted(base):
            a0, lo, size = base[b]
            g = [g for g in (8, 4, 2, 1) if size % g == 0 and all(e % g == 0 for e in es)][0]
            out += [(E.load(st, a0 + i, g), g) for i in range(0, size, g)]
        return out
    for lay in layouts(sig):
        for n in ns:
            start(ctx)
            s2 = E.forkstate(ctx.st, 1)
            ptrs, steps, base = loops.place(ctx, s2, sig, lay, n)
            blk = loops.argblock(ctx, s2, ptrs, steps, n)
            blk[3] = 0x5a5a0
            ref = None
            for m in ('on',) + MODES:
                s = E.forkstate(s2, 1)
                mode(ctx, s, m)
                cand = dict(key='%s/%s/n%d/%s' % (key, lay.name, n, m), entry='loop', name=name, sig=sig, lay=(lay.name, lay.ops), n=n, mode=m)
                del calls[:]
                C.oldloop_handler = old
                try:
                    E.callp(s, fp, list(blk))
                except PathDead:
                    report(rec, E, cand)
                    continue
                finally:
                    C.oldloop_handler = None
                if m == 'on':
                    # what the loop does is for P01 to P06
                    E.problems[:] = []
                    ref = (bytesof(s, base), list(calls))
                    continue
                report(rec, E, cand)
                still(ctx, rec, s, m, cand)
                got = bytesof(s, base)
                if 'off' in m:
                    want = (name, sig, tuple(ptrs), n, tuple(x & M64 for x in steps), 0x5a5a0)
                    ok = [(same_loop(ctx, c[0], c[1], name, sig),) + c[2:] for c in calls] == [(True,) + want[2:]]
                    need(rec, E, 0 if ok or n == 0 and not calls else 1, cand, 'NumPy\'s loop is not called once with the same arguments: %s' % calls[:2])
                    s4 = E.forkstate(s2, 1)
                    if n:
                        E.store(s4, ptrs[-1], X.var('old_1', es[-1] * 8), es[-1])
                    w = bytesof(s4, base)
                elif ref is None:
                    continue
                else:
                    need(rec, E, 0 if calls == ref[1] else 1, cand, 'calls of NumPy\'s loop differ')
                    w = ref[0]
                bad = 0
                for (x, g), (y, _) in zip(got, w):
                    bad = X.bor(bad, same_value(E, x, y, g * 8))
                need(rec, E, bad, cand, 'memory')
            rec.reach(key)


def same_loop(ctx, n1, s1, n2, s2):
    # long and long long share a table entry
    s1, s2 = (tuple({9: 7, 10: 8}.get(t, t) for t in s) for s in (s1, s2))
    return s1 == s2 and ctx.C.np_loops().get('alias:' + n1, n1) == ctx.C.np_loops().get('alias:' + n2, n2)


# ------------------------------------------------------------ P09, sort, argsort, argmin, argmax, fill
def af_args(nm, buf, n, ib, obj):
    if nm == 'fill':
        return [buf, n, obj]
    if nm.startswith('sort'):
        return [buf, n, obj]
    if nm.startswith('argsort'):
        return [buf, ib, n, obj]
    return [buf, n, ib, obj]


def af_job(ctx, rec, key, t, es, nm, ns):
    E, C = ctx.E, ctx.C
    for n in ns:
        start(ctx)
        st = E.forkstate(ctx.st, 1)
        spec = arr(t, n, 1, es)
        if nm == 'fill' or t not in p_sort.ES and t not in (18, 19):
            obj, buf = make(ctx, st, spec, 'a')
            vals = None
        else:
            obj, buf, vals = p_sort.array(ctx, st, spec, 'a', [(k * 7 + 3) % 11 for k in range(n)])
        io, ib = make(ctx, st, arr(7, n), 'i', lambda i, g: i)
        blk = af_args(nm, buf, n, ib, obj)
        ref = None
        calls = []

        def h(E_, s, tt, f, args):
            calls.append((tt, f, tuple(args)))
            E.store(s, ib, X.var('old', 64), 8)
            return X.var('oldresult', 32)
        for m in ('on',) + MODES:
            s = E.forkstate(st, 1)
            mode(ctx, s, m)
            cand = dict(key='%s/n%d/%s' % (key, n, m), entry='af', t=t, es=es, slot=nm, n=n, mode=m)
            del calls[:]
            C.npfunc_handler = h
            try:
                r = E.callp(s, C.arrfunc(s, t, nm), list(blk))
            except PathDead:
                report(rec, E, cand)
                continue
            finally:
                C.npfunc_handler = None
            got = [(E.load(s, buf + i, 1), E.load(s, ib + i, 1) if i < 8 * n else 0) for i in range(spec['nbytes'])]
            if m == 'on':
                E.problems[:] = []
                ref = (got, list(calls), r)
                continue
            report(rec, E, cand)
            still(ctx, rec, s, m, cand)
            if 'off' in m:
                ok = len(calls) == 1 and p_sort.same_type(calls[0][0], t) and calls[0][1] == nm and list(calls[0][2][:len(blk)]) == blk
                need(rec, E, 0 if ok else 1, cand, 'NumPy\'s function is not called once with the same arguments: %s' % calls[:2])
                s4 = E.forkstate(st, 1)
                E.store(s4, ib, X.var('old', 64), 8)
                w = [(E.load(s4, buf + i, 1), E.load(s4, ib + i, 1) if i < 8 * n else 0) for i in range(spec['nbytes'])]
                rr = X.var('oldresult', 32)
            elif ref is None:
                continue
            else:
                need(rec, E, 0 if calls == ref[1] else 1, cand, 'calls of NumPy\'s function differ')
                w, rr = ref[0], ref[2]
            bad = same_value(E, X.extract(r, 31, 0), X.extract(rr, 31, 0), 32)
            for (x, i), (y, j) in zip(got, w):
                bad = X.bor(bad, X.bor(same_value(E, x, y, 8), same_value(E, i, j, 8)))
            need(rec, E, bad, cand, 'memory or result')
        rec.reach(key)


# ------------------------------------------------------------ P13
def fill_job(ctx, rec, key, t, n, par, align=0, zig=False):
    E, C = ctx.E, ctx.C
    start(ctx)
    es = ELSIZE[t]
    w = es * 8
    fw = {11: 32, 12: 64, 13: 80}.get(t)
    st = E.forkstate(ctx.st, 1)
    if not par:
        switch(ctx, st, 'thread_disable')
    if zig:
        switch(ctx, st, 'thread_zigzag')
    spec = arr(t, n, 1, es, align=align)
    cand = dict(key=key, entry='fill', t=t, es=es, n=n, par=par, align=align)
    g = es if es in (1, 2, 4, 8) else 1
    names = ['a_%d' % i for i in range(2 * es // g)]
    if t == 13:
        # 10 bytes of value, 6 of padding
        vals = [X.var('a_0', 80), X.var('a_1', 80)]

        def cell(i, g):
            return X.extract(vals[i // 16], 8 * (i % 16) + 7, 8 * (i % 16)) if i < 32 and i % 16 < 10 else 0 if i < 32 else 0x77
        obj, buf = make(ctx, st, spec, 'a', cell)
    else:
        obj, buf = make(ctx, st, spec, 'a', lambda i, g: X.var('a_%d' % i, 8 * g) if i * g < 2 * es else 0x77)
        vals = [E.load(st, buf, es), E.load(st, buf + es, es)] if n > 1 else None
    seen = []

    def h(E_, s, tt, f, args):
        seen.append((tt, f, list(args)))
        return X.var('oldresult', 32)
    C.npfunc_handler = h
    try:
        r = E.callp(st, C.arrfunc(st, t, 'fill'), [buf, n, obj])
    except PathDead:
        report(rec, E, cand)
        return
    finally:
        C.npfunc_handler = None
    report(rec, E, cand)
    if seen:
        ok = len(seen) == 1 and p_sort.same_type(seen[0][0], t) and seen[0][1] == 'fill' and seen[0][2][:3] == [buf, n, obj]
        need(rec, E, 0 if ok else 1, cand, 'not left to NumPy as it came')
        need(rec, E, same_value(E, X.extract(r, 31, 0), X.var('oldresult', 32), 32), cand, 'result of NumPy')
        bad = 0
        for i in range(2 * es // g, n * es // g):
            bad = X.bor(bad, same_value(E, E.load(st, buf + i * g, g), 0x77, g * 8))
        need(rec, E, bad, cand, 'changed before NumPy fills')
        rec.reach(key)
        return
    need(rec, E, X.bnot(X.eq(X.extract(r, 31, 0), 0, 32)), cand, 'fails')
    a, b = vals
    if fw:
        d = vec.fop('fsub', b, a, fw)
    else:
        d = X.sub(b, a, w)
    bad = 0
    for i in range(n):
        x = E.load(st, buf + i * es, es) if t != 13 else E.load(st, buf + i * es, 10)
        if i < 2:
            v = vals[i]
        elif fw:
            v = vec.fop('fadd', a, vec.fop('fmul', vec.fcast('sitofp', i, 64, fw), d, fw), fw)
        else:
            v = X.add(a, X.mul(i & ((1 << w) - 1), d, w), w)
        if x is not v:
            bad = X.bor(bad, X.bnot(X.eq(x, v, fw or w)))
        if i % 256 == 255 or i == n - 1:
            need(rec, E, bad, dict(cand, upto=i), 'elements up to %d' % i)
            bad = 0
            if len(rec.cands) > 1:
                break
    if not fw and n <= 100:
        # whatever the formula: neighbours differ by the difference of the first two
        xs = [E.load(st, buf + i * es, es) for i in range(n)]
        bad = 0
        for x, y in zip(xs, xs[1:]):
            bad = X.bor(bad, X.bnot(X.eq(X.sub(X.add(y, a, w), X.add(x, b, w), w), 0, w)))
        need(rec, E, bad, cand, 'distance of neighbours')
    rec.reach(key)


PRE = r'''
import ctypes
import numpy as np
PYF = ctypes.PYFUNCTYPE
P_ = ctypes.c_void_p
TC = '?bBhHiIlLqQfdgFDGOSUVMme'
AF = %r


def word(a):
    return ctypes.c_void_p.from_address(a).value or 0


def loops_now(name, sig):
    """-> (function, data) of the ufunc's loop"""
    u = getattr(np, name)
    k = u.nargs
    nt = ctypes.c_int.from_address(id(u) + 48).value
    ty = ctypes.string_at(word(id(u) + 64), nt * k)
    for i in range(nt):
        if list(ty[i * k:i * k + k]) == list(sig):
            return word(word(id(u) + 32) + 8 * i)
    return None


def af_now(t, slot):
    return word(word(id(np.dtype(TC[t])) + 64) + 8 * AF[slot])


ORIG = {}
for n_ in dir(np):
    u_ = getattr(np, n_)
    if isinstance(u_, np.ufunc):
        k_ = u_.nargs
        nt_ = ctypes.c_int.from_address(id(u_) + 48).value
        ty_ = ctypes.string_at(word(id(u_) + 64), nt_ * k_) if nt_ else b''
        for i_ in range(nt_):
            ORIG.setdefault((n_, tuple(ty_[i_ * k_:i_ * k_ + k_])), word(word(id(u_) + 32) + 8 * i_))
for t_ in range(24):
    for s_ in AF:
        ORIG[(t_, s_)] = af_now(t_, s_)

# count the calls of NumPy's own functions: wrappers in the tables before the module looks at them
SEEN = []
hold = []


def wrapped(proto, f):
    g = proto(f)

    def w(*a):
        SEEN.append(a)
        return g(*a)
    x = proto(w)
    hold.append((x, g, w))
    return ctypes.cast(x, P_).value


def wrap_loops(name):
    u = getattr(np, name)
    nt = ctypes.c_int.from_address(id(u) + 48).value
    for i in range(nt):
        p = word(id(u) + 32) + 8 * i
        if word(p):
            ctypes.c_void_p.from_address(p).value = wrapped(PYF(None, P_, P_, P_, P_), word(p))


def proto(slot):
    if slot == 'fill' or slot.startswith('sort'):
        return PYF(ctypes.c_int, P_, ctypes.c_int64, P_)
    if slot.startswith('argsort'):
        return PYF(ctypes.c_int, P_, P_, ctypes.c_int64, P_)
    return PYF(ctypes.c_int, P_, ctypes.c_int64, P_, P_)


def wrap_af(slot):
    for t in range(24):
        p = word(id(np.dtype(TC[t])) + 64) + 8 * AF[slot]
        if word(p):
            ctypes.c_void_p.from_address(p).value = wrapped(proto(slot), word(p))


''' % AF

BODY = r'''
def guard(data, align=0):
    """memory that ends at an unmapped page"""
    n = len(data)
    body = ((n + PG) // PG + 1) * PG
    base = libc.mmap(None, body + PG, 3, 0x22, -1, 0)
    libc.mprotect(base + body, PG, 0)
    p = base + body - n - align
    ctypes.memmove(p, data, n)
    return p


def words(*v):
    return guard(np.array([x & (2**64 - 1) for x in v], 'u8').tobytes())


def settings(m):
    P.atop_enable()
    P.ledger_disable()
    if 'ledger' in m:
        P.ledger_enable()
    if 'off' in m:
        P.atop_disable()


def kept(m):
    return P.ledger_isenabled() == ('ledger' in m) and P.atop_isenabled() == ('off' not in m)


def loop(c, data, fn):
    sig, ops, n = c['sig'], c['lay'][1], c['n']
    es = [np.dtype(TC[t]).itemsize for t in sig]
    ext = {}
    for k, (b, off, step) in enumerate(ops):
        lo = (off + min(0, step * (n - 1) if n else 0)) * es[k]
        hi = (off + max(0, step * (n - 1) if n else 0) + 1) * es[k]
        a, z = ext.get(b, (lo, hi))
        ext[b] = (min(a, lo), max(z, hi))
    bufs = {b: guard((data[b] * (1 + (hi - lo) // len(data[b])))[:hi - lo]) for b, (lo, hi) in ext.items()}
    ptrs = [bufs[b] - ext[b][0] + off * es[k] for k, (b, off, step) in enumerate(ops)]
    del SEEN[:]
    a = (words(*ptrs), words(n), words(*[s * es[k] for k, (_, _, s) in enumerate(ops)]), None)
    PYF(None, P_, P_, P_, P_)(fn)(*a)
    c['calls'] = SEEN == [a]
    return [ctypes.string_at(bufs[b], hi - lo) for b, (lo, hi) in sorted(ext.items())]


def af(c, data, fn):
    n, t = c['n'], c['t']
    dt = np.dtype(TC[t]) if t not in (18, 19, 20) else np.dtype(TC[t] + str(c['es'] // (4 if t == 19 else 1)))
    x = np.empty(n, dt)
    d = (data * (1 + x.nbytes // len(data)))[:x.nbytes]
    buf = guard(d)
    ctypes.memmove(x.ctypes.data, d, x.nbytes)
    o = np.ndarray((n,), dt, (ctypes.c_char * x.nbytes).from_address(buf))
    ib = guard(np.arange(n, dtype='i8').tobytes())
    s = c['slot']
    if s == 'fill' or s.startswith('sort'):
        a = (buf, n, id(o))
    elif s.startswith('argsort'):
        a = (buf, ib, n, id(o))
    else:
        a = (buf, n, ib, id(o))
    del SEEN[:]
    r = proto(s)(fn)(*a)
    c['calls'] = SEEN == [a]
    return [r, ctypes.string_at(buf, x.nbytes), ctypes.string_at(ib, 8 * n)]


def datas(c):
    rng = np.random.default_rng(7)
    if c.get('hex'):
        yield [bytes.fromhex(c['hex'])] * 3
    ts = c['sig'] if c['entry'] == 'loop' else [c['t']] * 3
    for k in range(5):
        out = []
        for j in range(3):
            t = ts[min(j, len(ts) - 1)]
            if t in (18, 19, 20):
                v = rng.integers(65, 70, 400)
                out.append(v.astype('u1' if t != 19 else 'u4').tobytes())
            elif t == 0:
                out.append(rng.integers(0, 2, 400).astype('u1').tobytes())
            else:
                lo, hi = (-30 if TC[t] not in 'BHILQ' else 0), (3, 100, 100, 30, 5)[k]
                v = rng.integers(lo, hi, 400)
                dt = np.dtype(TC[t]) if t not in (21, 22) else np.dtype('i8')
                out.append((v / (3 if k % 2 and dt.kind in 'fc' else 1)).astype(dt).tobytes())
        yield out


def run(c, place):
    if place:
        return None
    for data in datas(c):
        np.seterr(all='ignore')
        if c['entry'] == 'loop':
            call, o, now = loop, ORIG[(c['name'], tuple(c['sig']))], loops_now(c['name'], c['sig'])
        else:
            call, o, now = (lambda c, d, f: af(c, d[0], f)), ORIG[(c['t'], c['slot'])], af_now(c['t'], c['slot'])
        m = c['mode']
        settings('on')
        if m == 'ledger':
            want = call(c, data, now)
        else:
            want = call(c, data, o)
        settings(m)
        got = call(c, data, now)
        if c.get('one'):
            # long double: padding bytes hold no value
            es = 16
            for q in (want, got):
                q[1] = b''.join(q[1][k:k + 10] for k in range(0, len(q[1]), 16))
        if got != want:
            return 'differs from %s: %s' % ('the run without ledger' if m == 'ledger' else 'NumPy', [(str(a[:96]), str(b[:96])) if type(a) is bytes else (a, b) for a, b in zip(got, want) if a != b][:2])
        if not kept(m):
            return 'a switch changed'
        if 'off' in m and not c['calls'] and (c['n'] or SEEN):
            return 'NumPy\'s own function is not called once with the same arguments: %s' % SEEN
    return None


main(run)
'''


class Hooks(ApiCheck):
    def replay(self, ctx, c):
        d = {k: c[k] for k in ('entry', 'name', 'sig', 'lay', 'n', 'mode', 't', 'es', 'slot') if k in c}
        if c['entry'] == 'fill':
            d.update(entry='af', slot='fill', mode='on')
            if c['t'] == 13:
                d['one'] = 1
            env = c.get('env') or {}
            if 'a_0' in env or 'a_1' in env:
                es = 10 if c['t'] == 13 else c['es']
                d['hex'] = b''.join((env.get('a_%d' % k, 0) & ((1 << 8 * es) - 1)).to_bytes(c['es'], 'little') for k in range(2)).hex()
        return replay(self.pid, c['key'], BODY, [d], pre=PRE + ('wrap_loops(%r)' % c['name'] if d['entry'] == 'loop' else 'wrap_af(%r)' % d['slot']))


class P09(Hooks):
    """switches and ledger"""
    pid = 'P09'

    def jobs(self, ctx):
        J = []
        th = ctx.tier == 'thorough'
        for name, sig in sorted(ctx.C.replaced):
            ns = (0, 1, 5, 40, 67) if th else (0, 5, 40 if ELSIZE[sig[0]] < 4 else 9)
            J.append(('%s:%s' % (name, ','.join(map(str, sig))), loop_job, (name, sig, ns), 1))
        for t in range(24):
            if t == 17:
                continue
            es = {18: 3, 19: 8, 20: 5}.get(t) or ELSIZE[t]
            for nm in SLOTS:
                if t == 20 and nm == 'fill':
                    continue
                J.append(('%s:%s' % (nm, tag(t, es)), af_job, (t, es, nm, (3, 20) if nm == 'fill' else (1, 5, 20)), 1))
        return J

    def bounds(self, ctx):
        return ('every hooked inner loop (3 to 6 layouts, reductions included; 0, 5, 9 or 40 elements, all symbolic) and the sort, argsort, argmax, argmin and fill functions of 23 types '
                '(1 to 20 elements); atop disabled, ledger enabled, both')


class P13(Hooks):
    """arange"""
    pid = 'P13'

    def jobs(self, ctx):
        J = []
        th = ctx.tier == 'thorough'
        for t in range(24):
            if t in (17, 18, 19, 20):
                continue
            num = t in p_sort.ES and t not in (0, 23) or t == 13
            ns = [3, 4, 5, 8, 15, 16, 17, 31, 33, 40, 64, 100] + ([2, 200, 300, 1000] if th else []) if num else [3, 17]
            for n in ns:
                for al in (0, 1) if n in (5, 33) and ELSIZE[t] == 1 else (0,):
                    J.append(('%s:%d%s' % (DT[t], n, '+%d' % al if al else ''), fill_job, (t, n, n % 2 == 0, al), 1))
            if num:
                big = [65536, 65537, 81920, 98304 + 5] if th else [65536 + (t * 977) % 16384, 65535] if ELSIZE[t] < 16 else [65537]
                for n in big:
                    J.append(('%s:%d' % (DT[t], n), fill_job, (t, n, True, 0, t % 2 == 1), 60))
        return J

    def bounds(self, ctx):
        return '20 types, 3 to 100 elements and 65535 to 82000 (shared by threads); the first two values symbolic'


# ------------------------------------------------------------ P21
TP_AS_MAPPING, MP_SUBSCRIPT = 112, 8


def hook_job(ctx, rec, key, vals, idx, what):
    """x[i] through the hook: the selected elements, or NumPy's own function called once"""
    E, C = ctx.E, ctx.C
    bool_ = idx is not None and idx['t'] == 0
    pick = bool_ and idx['shape'] == vals['shape']
    voff = elements(vals)
    ioff = elements(idx) if idx is not None else []
    es = vals['es']
    n = len(ioff)
    cells = [0] * (idx['nbytes'] if idx is not None else 0)
    conds = []
    if bool_:
        for i, o in enumerate(ioff):
            v = X.var('m_%d' % o, 1)
            cells[o] = X.zext(v, 1, 8)
            conds.append(X.eq(v, 1, 1))
    before, total = ranks(conds) if pick else (None, [(0, 1)])
    for k, rank in total:
        start(ctx)
        st = E.forkstate(ctx.st, 1)
        cand = dict(key=key, entry='hook', vals=vals, idx=idx, what_='' if idx is not None else what, k=k)
        E.pcs[:] = [] if rank == 1 else [rank]
        if rank != 1 and not E.feasible(1):
            continue
        v, vb = make(ctx, st, vals, 'v')
        if idx is None:
            i = {'long': lambda: C.long(st, 1), 'list': lambda: C.list(st, [C.long(st, 0)]), 'tuple': lambda: C.tuple(st, []), 'none': lambda: C.none(), 'str': lambda: C.str(st, 'a')}[what]()
            ib = None
        else:
            i, ib = make(ctx, st, idx, 'm', list(cells) if bool_ else None)
        T = C.type(st, 'PyArray_Type')
        seen = []
        orig = []

        def numpy(E_, s, args):
            seen.append(list(args))
            r = C.long(s, 4242)
            orig.append(r)
            return r
        E.ext['np:array_subscript'] = numpy
        fp = E.faddr('np:array_subscript')
        mp = E.newobj(st, 24, 8, 'mapping', init=[0x1110, fp, 0x2220])
        E.store(st, T + TP_AS_MAPPING, mp, 8)
        true, false = E.gaddr('_Py_TrueStruct'), E.gaddr('_Py_FalseStruct')
        slot = mp + MP_SUBSCRIPT
        sn = snapshot(E, st, vb), snapshot(E, st, ib) if ib else None
        rc = refs(ctx, st, [v, i])
        bad = 0
        try:
            r1 = E.callp(st, C.methods['hook_enable'][0], [1, C.tuple(st, [])])
            h = E.load(st, slot, 8)
            r2 = E.callp(st, C.methods['hook_enable'][0], [1, C.tuple(st, [])])
            if (r1, r2) != (true, false) or h == fp or E.load(st, slot, 8) != h or E.load(st, mp, 8) != 0x1110 or E.load(st, mp + 16, 8) != 0x2220:
                bad = 1
            need(rec, E, bad, cand, 'hook_enable')
            free = len(conds) if pick else 0
            with Shape(ctx, k, (free - k + 1) * es) as sh:
                r = E.callp(st, h, [v, i])
            err = C.err
            r3 = E.callp(st, C.methods['hook_disable'][0], [1, C.tuple(st, [])])
            back = E.load(st, slot, 8)
            r4 = E.callp(st, C.methods['hook_disable'][0], [1, C.tuple(st, [])])
            need(rec, E, 0 if (r3, r4) == (true, false) and back == fp and E.load(st, slot, 8) == fp else 1, cand, 'hook_disable')
        except PathDead:
            report(rec, E, cand)
            continue
        report(rec, E, cand)
        need(rec, E, X.bor(unchanged(E, st, vb, sn[0]), unchanged(E, st, ib, sn[1]) if ib else 0), cand, 'inputs')
        need(rec, E, 0 if refs(ctx, st, [v, i]) == rc else 1, cand, 'references')
        if seen:
            need(rec, E, 0 if len(seen) == 1 and seen[0][:2] == [v, i] and r == orig[0] and err is None else 1, cand, 'not left to NumPy as it came, or with an error set')
            rec.reach('left to NumPy')
            continue
        if not pick:
            need(rec, E, 1, cand, 'not left to NumPy')
            continue
        if type(r) is not int:
            raise Unsupported('symbolic result')
        need(rec, E, 1 if r == 0 or err is not None else 0, cand, 'fails')
        if r == 0:
            continue
        info = C.arrinfo(st, r)
        need(rec, E, 0 if info['descr'] == C.arrinfo(st, v)['descr'] and info['shape'] == [k] and (k < 2 or info['strides'][0] == es) else 1, cand, 'dtype or shape')
        if info['shape'] != [k]:
            continue
        want = [elem(E, st, info['data'], p * es, es) for p in range(k)]
        bad = 0
        for q in range(n):
            x = elem(E, st, vb, voff[q], es)
            for p, g in before[q]:
                if p < k:
                    bad = X.bor(bad, X.band(X.band(conds[q], g), X.bnot(X.eq(want[p], x, es * 8))))
        need(rec, E, bad, cand, 'elements')
        need(rec, E, sh.past(st, info), cand, 'written past the end')
        need(rec, E, 0 if E.load(st, r, 8) == 1 else 1, cand, 'references of the result')
        rec.reach('selected')
    rec.reach(key)


HOOK_BODY = r'''
def run(c, place):
    v, vd = make(c['vals'], place)
    i = make(c['idx'], place)[0] if c['idx'] else {'long': 1, 'list': [0], 'tuple': (), 'none': None, 'str': 'a'}[c['what_']]

    def get():
        try:
            return v[i], None
        except Exception as e:
            return None, (type(e), str(e))
    P.hook_disable()
    want, we = get()
    rc = sys.getrefcount(v), sys.getrefcount(i)
    if P.hook_enable() is not True or P.hook_enable() is not False:
        return 'hook_enable'
    got, ge = get()
    if P.hook_disable() is not True or P.hook_disable() is not False:
        return 'hook_disable'
    if we != ge:
        return 'raises %s instead of %s' % (ge, we)
    if we:
        return None
    if type(got) is not type(want):
        return 'a %s instead of a %s' % (type(got), type(want))
    t = same(got, want) if isinstance(want, np.ndarray) else None if repr(got) == repr(want) else 'is %r instead of %r' % (got, want)
    if ctypes.string_at(vd[0], len(vd[1])) != vd[1]:
        t = t or 'input was changed'
    del want
    again, e = get()
    del got
    if (sys.getrefcount(v), sys.getrefcount(i)) != rc and not isinstance(again, np.ndarray):
        t = t or 'references'
    return t
main(run)
'''


class P21(ApiCheck):
    """the getitem hook"""
    pid = 'P21'
    assumptions = ['mask bytes are 0 or 1', 'CPython keeps the mapping functions of a type at tp_as_mapping->mp_subscript']

    def jobs(self, ctx):
        J = []
        th = ctx.tier == 'thorough'

        def add(vals, idx, what=''):
            J.append(('%s%s%s:%s%s#%d' % (tag(vals['t'], vals['es']), 'x'.join(map(str, vals['shape'])), '', what or tag(idx['t'], idx['es']), 'x'.join(map(str, idx['shape'])) if idx else '', len(J)), hook_job, (vals, idx, what), 1))
        types = [(1, 1), (5, 4), (12, 8), (15, 16), (18, 5), (21, 8), (0, 1), (3, 2), (20, 3), (13, 16)]
        for t, es in types:
            for n in (0, 1, 3, 8, 10) if t in (5, 12) or th else (9,):
                for vs, ms in ((1, 1), (2, 1), (-1, 2)):
                    add(arr(t, n, vs, es), arr(0, n, ms))
            # two and three dimensions, in either order, and none
            add(arr(t, 0, 1, es, shape=(3, 3), strides=(3 * es, es)), arr(0, 0, 1, 1, shape=(3, 3), strides=(3, 1)))
            add(arr(t, 0, 1, es, shape=(2, 3), strides=(es, 2 * es)), arr(0, 0, 1, 1, shape=(2, 3), strides=(3, 1)))
            add(arr(t, 0, 1, es, shape=(2, 3), strides=(3 * es, es)), arr(0, 0, 1, 1, shape=(2, 3), strides=(1, 2)))
            add(arr(t, 0, 1, es, shape=(2, 2, 2), strides=(4 * es, 2 * es, es)), arr(0, 0, 1, 1, shape=(2, 2, 2), strides=(4, 2, 1)))
            add(arr(t, 0, 1, es, shape=(), strides=()), arr(0, 0, 1, 1, shape=(), strides=()))
            # masks of another shape
            add(arr(t, 0, 1, es, shape=(2, 3), strides=(3 * es, es)), arr(0, 2, 1, 1))
            add(arr(t, 0, 1, es, shape=(2, 3), strides=(3 * es, es)), arr(0, 6, 1, 1))
            add(arr(t, 0, 1, es, shape=(2, 3), strides=(3 * es, es)), arr(0, 0, 1, 1, shape=(3, 2), strides=(2, 1)))
            add(arr(t, 6, 1, es), arr(0, 0, 1, 1, shape=(2, 3), strides=(3, 1)))
            add(arr(t, 6, 1, es), arr(0, 5, 1, 1))
            add(arr(t, 6, 1, es), arr(0, 0, 1, 1, shape=(), strides=()))
            # other indexes
            for it in (1, 2, 5, 7, 8, 12, 15, 18, 21, 23):
                add(arr(t, 4, 1, es), arr(it, 3, 1, 5 if it == 18 else None))
            for w in ('long', 'list', 'tuple', 'none', 'str'):
                add(arr(t, 4, 1, es), None, w)
            if es in (2, 4, 8):
                add(arr(t, 5, 1, es, byteorder='>'), arr(0, 5, 1))
        return J

    def group(self, c):
        return c['key'].split('#')[0]

    def replay(self, ctx, c):
        cs = []
        env = c.get('env') or {}
        for k in range(6):
            v, i = c['vals'], c['idx']
            b = None
            if i is not None:
                hx = bytearray(bytes.fromhex(hexbuf(i, 'm', env if k == 0 else {})))
                if i['t'] == 0:
                    for q, o in enumerate(elements(i)):
                        hx[o] = env.get('m_%d' % o, 0) & 1 if k == 0 else (q * 5 + k) % (k + 1) == 0
                elif i['t'] in (5, 7, 8, 1, 2):
                    hx = bytearray(len(hx))
                b = jarr(i, bytes(hx).hex())
            cs.append(dict(vals=jarr(v, hexbuf(v, 'v', env if k == 0 else {})), idx=b, what_=c['what_']))
        return replay(self.pid, c['key'], HOOK_BODY, cs)

    def bounds(self, ctx):
        return '10 item types; masks of up to 10 elements, all symbolic, of the same shape (0 to 3 dimensions, strided, either order) and of others; index arrays of 10 other types; indexes that are no arrays'


CHECKS = {'P09': P09, 'P13': P13, 'P21': P21}
