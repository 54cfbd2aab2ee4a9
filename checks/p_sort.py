"""P14, P15: sort, argsort and lexsort."""
import re
from api import *
from engine import build
from p_getitem import start, refs, need, model, tag
from p_threads import par_replay

ES = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 23: 2}
MANT = {11: (8, 23), 12: (11, 52), 23: (5, 10)}
SIGNED = (1, 3, 5, 7, 9)
KINDS = {None: None, 'q': 'quicksort', 'h': 'heapsort', 's': 'stable', 'm': 'mergesort'}
SLOT = {'q': 0, 'h': 1, 's': 2}


# ------------------------------------------------------------ values and their order
def fbits(t, v):
    import struct
    return int.from_bytes(struct.pack({23: '<e', 11: '<f', 12: '<d'}[t], v), 'little')


def value(t, es, e):
    """element of a pattern: a rank, 'nan', or the name of a symbolic value"""
    w = es * 8
    if type(e) is str and e != 'nan':
        if t == 0:
            return X.zext(X.var(e, 1), 1, 8)
        if t == 18:
            return X.concat([(X.var('%s_%d' % (e, k), 8), 8) for k in range(es)]) if es > 1 else X.var(e + '_0', 8)
        if t == 19:
            return X.concat([(X.var('%s_%d' % (e, k), 32), 32) for k in range(es // 4)]) if es > 4 else X.var(e + '_0', 32)
        return X.var(e, w)
    if t in MANT:
        if e == 'nan':
            x, m = MANT[t]
            return ((1 << x) - 1) << m | 1 << (m - 1)
        return fbits(t, (e - 6) * 1.25)
    e = 40 if e == 'nan' else e
    if t == 0:
        return e & 1
    if t == 18:
        return int.from_bytes(b'k' * (es - 1) + bytes([65 + e]), 'little')
    if t == 19:
        return sum(v << 32 * k for k, v in enumerate([107] * (es // 4 - 1) + [65 + e]))
    if t in SIGNED:
        return (e * 3 - 50) & ((1 << w) - 1)
    return e * 5 & ((1 << w) - 1)


def okey(t, es, v):
    """unsigned key of the same order"""
    w = es * 8
    if t in SIGNED:
        return X.add(v, 1 << (w - 1), w)
    if t in MANT:
        x, m = MANT[t]
        top = (1 << w) - 1
        mag = X.extract(v, w - 2, 0)
        nan = X.ult(((1 << x) - 1) << m, mag, w - 1)
        return X.ite(nan, top, X.ite(X.eq(mag, 0, w - 1), 1 << (w - 1), X._forder(v, w), w), w)
    if t == 18 and es > 1:
        return X.concat([(X.extract(v, 8 * k + 7, 8 * k), 8) for k in reversed(range(es))])
    if t == 19 and es > 4:
        return X.concat([(X.extract(v, 32 * k + 31, 32 * k), 32) for k in reversed(range(es // 4))])
    return v


def array(ctx, st, spec, name, pat):
    """-> object, buffer, values of the elements"""
    es = spec['es']
    vals = [value(spec['t'], es, e) for e in pat]
    at = {}
    for o, v in zip(elements(spec), vals):
        for b in range(es):
            at[o + b] = (v, b)

    def cell(i, g):
        k = at.get(i * g)
        if k is None:
            return X.var('%spad_%d' % (name, i), 8 * g)
        return X.extract(k[0], 8 * (k[1] + g) - 1, 8 * k[1])
    obj, buf = make(ctx, st, spec, name, cell)
    return obj, buf, vals


def symbols(t, es, pat):
    """names of the variables of the pattern -> (width)"""
    out = {}
    for e in pat:
        if type(e) is str and e != 'nan':
            out[e] = 1
    return sorted(out)


def concrete(spec, pat, env):
    """the buffer in a model"""
    es = spec['es']
    t = spec['t']
    data = bytearray(hashlib.md5(b'pad').digest() * (spec['nbytes'] // 16 + 1))[:spec['nbytes']]
    for o, e in zip(elements(spec), pat):
        v = value(t, es, e)
        if type(v) is not int:
            v = X.evaluate(v, {n: env.get(n, 0) for n in X.vars_of(v)} if not isinstance(env, dict) else Env(env))
        data[o:o + es] = v.to_bytes(es, 'little')
    return bytes(data).hex()


class Env(dict):
    def __missing__(self, k):
        return 0

    def get(self, k, d=None):
        return dict.get(self, k, 0)


def differ_multiset(E, ins, outs, w):
    """condition: outs is not a permutation of ins"""
    rest = {}
    for v in ins:
        k = v if type(v) is int else ('t', v.id)
        rest.setdefault(k, []).append(v)
    left = []
    for v in outs:
        k = v if type(v) is int else ('t', v.id)
        if rest.get(k):
            rest[k].pop()
        else:
            left.append(v)
    ins = [v for l in rest.values() for v in l]
    if not left and not ins:
        return 0
    bad = 0
    for x in ins:
        a = b = 0
        for y in ins:
            a = X.add(a, X.zext(X.eq(x, y, w), 1, 16), 16)
        for y in left:
            b = X.add(b, X.zext(X.eq(x, y, w), 1, 16), 16)
        bad = X.bor(bad, X.bnot(X.eq(a, b, 16)))
    return bad


def kwargs(ctx, st, **kw):
    items = {k: v for k, v in kw.items() if v is not None}
    if not items:
        return 0
    return ctx.C.newpy(st, 'dict', 'PyDict_Type', items=items)


def pystr(ctx, st, s):
    return None if s is None else ctx.C.str(st, s)


def punts(ctx, st, seen):
    def h(E, s, t, nm, args):
        seen.append((t, nm, list(args)))
        return 0
    ctx.C.npfunc_handler = h


class Everything(object):
    def __contains__(self, k):
        return True


class Parts(object):
    """The parts of a sort shared by threads: runs them in another order than they are numbered, and checks that no part accesses memory
    that a part it need not wait for writes, and that a merge waits for both of its halves."""

    def __init__(self, ctx, perm, base):
        self.ctx, self.E, self.perm = ctx, ctx.E, perm
        self.st = base
        self.old = set(base.mem)        # the threads' own tables
        self.claims = None              # address of the counter the parts are drawn from
        E = self.E
        self.saved = E.on_atomic, E.trace, E.watch
        E.on_atomic, E.trace, E.watch = self.atomic, self.access, Everything()
        self.fresh()

    def close(self):
        self.E.on_atomic, self.E.trace, self.E.watch = self.saved

    def fresh(self):
        self.adds = {}
        self.node = None
        self.acc = {}
        self.ready = True
        self.base = None
        self.ended = False
        self.merges = 0

    def atomic(self, st, op, addr, v, w):
        if type(addr) is not int or self.ended:
            return
        E = self.E
        E.trace, tr = None, E.trace
        try:
            if op == 'add' and v == 1 and w == 64:
                self.adds[addr] = self.adds.get(addr, 0) + 1
                if addr == self.claims:
                    k = self.adds[addr] - 1
                    if k == 0:
                        self.base = E.load(st, addr, 8)
                    if k < len(self.perm):
                        E.store(st, addr, self.base + self.perm[k], 8)
                        self.begin(frozenset([self.perm[k]]))
                    else:
                        E.store(st, addr, self.base + k, 8)
                        self.node = None
                        self.ended = True
                        self.conflicts(st)
            elif op == 'or' and self.node is not None and type(v) is int and v and not v & (v - 1):
                old = E.load(st, addr, w // 8)
                if type(old) is not int:
                    raise Unsupported('symbolic buddy bits')
                i = v.bit_length() - 1
                size = len(self.leaves)
                first = min(self.leaves)
                if first // size != i:
                    raise Unsupported('merge tree of another shape')
                b = (first // size ^ 1) * size
                self.begin(self.leaves | frozenset(range(b, b + size)), bool(old >> (i ^ 1) & 1))
                self.merges += self.ready
        finally:
            E.trace = tr

    def table(self, addr):
        o = self.E.objat(self.st, addr)
        return o is not None and o.kind == 'heap' and o.id in self.old

    def begin(self, leaves, ready=True):
        self.leaves = leaves
        self.node = self.acc.setdefault(leaves, {}) if ready else {}
        self.ready = ready

    def access(self, kind, addr, n, st, o):
        if self.node is None or o.kind not in ('heap', 'data') or o.kind == 'heap' and o.id in self.old:
            return
        if not self.ready:
            self.ready = True
            self.E.problem(st, 'early', 'a merge starts before both halves are sorted')
        if type(addr) is not int or type(n) is not int:
            raise Unsupported('symbolic footprint')
        m = self.node.setdefault(o.id, [0, 0, o.name])
        m[kind == 'w'] |= ((1 << n) - 1) << (addr - o.base)

    def conflicts(self, st):
        nodes = list(self.acc.items())
        for i, (a, fa) in enumerate(nodes):
            for b, fb in nodes[:i]:
                if a & b:
                    continue
                for oid in fa:
                    if oid in fb:
                        x, y = fa[oid], fb[oid]
                        if x[1] & (y[0] | y[1]) or x[0] & y[1]:
                            self.E.problem(st, 'race', 'parts %s and %s use the same bytes of %s' % (sorted(a), sorted(b), x[2]))
                            return


def learn(ctx, perm, base, call):
    """find the counter the parts are drawn from: the one increased once more than there are parts, in the order of the numbers"""
    p = Parts(ctx, perm, base)
    p.claims = 0
    try:
        call()
    finally:
        p.close()
    c = [a for a, k in p.adds.items() if k == len(perm) + 1 and p.table(a)]
    if len(c) != 1:
        raise Unsupported('no single counter of parts')
    return c[0]


def parts_job(ctx, rec, key, perm, job, args):
    """a sort or argsort whose parts run in the order perm"""
    ctx.parts = None
    ctx.perm = perm
    ctx.name = ','.join(str(k) for k in perm)
    try:
        job(ctx, rec, key, *args)
        if ctx.parts is None:
            raise Unsupported('not shared by threads')
    finally:
        if ctx.parts:
            ctx.parts.close()
        ctx.parts = ctx.perm = None


def guarded(ctx, base, fn):
    """fn, run under the order of parts_job"""
    if not getattr(ctx, 'perm', None):
        return fn
    E = ctx.E
    c = []

    def probe():
        for st, r, dead in PathExplorer(E, 4000, True, True).paths(base, fn):
            return
    c = learn(ctx, ctx.perm, base, probe)
    E.problems[:] = []
    ctx.parts = Parts(ctx, ctx.perm, base)
    ctx.parts.claims = c

    def run(st):
        ctx.parts.fresh()
        try:
            return fn(st)
        finally:
            ctx.parts.node = None
    return run


def begin(ctx, par):
    st = E = None
    start(ctx)
    st = ctx.E.forkstate(ctx.st, 1)
    if not par:
        ctx.E.callp(st, ctx.C.methods['thread_disable'][0], [1, ctx.C.tuple(st, [])])
    return st


def same_type(a, b):
    # long and long long share a table entry and sort alike
    return {9: 7, 10: 8}.get(a, a) == {9: 7, 10: 8}.get(b, b)


# ------------------------------------------------------------ P14
def sort_job(ctx, rec, key, entry, t, es, kind, pat, step, pad, par, limit, align=0):
    E, C = ctx.E, ctx.C
    n = len(pat)
    spec = arr(t, n, step, es, pad=pad, align=align)
    cand = dict(key=key, entry=entry, t=t, es=es, kind=kind, pat=pat, step=step, pad=pad, par=par, align=align, perm=getattr(ctx, 'perm', None))
    base = begin(ctx, par)
    obj, buf, vals = array(ctx, base, spec, 'a', pat)
    own, ospec = (obj, spec)
    if entry == 'buf':
        # NumPy sorts a buffer with the values in native order; the array itself is strided or byte swapped
        ospec = arr(t, n, 3, es, byteorder='>')
        own, ob, ov = array(ctx, base, ospec, 'o', [(k * 7) % 13 for k in range(n)])
        osnap = snapshot(E, base, ob)
    snap = snapshot(E, base, buf)
    rc = refs(ctx, base, [obj])
    seen = []
    punts(ctx, base, seen)
    ks = pystr(ctx, base, KINDS[kind])
    rc2 = [E.load(base, ks, 8)] if ks else []

    def fn(st):
        C.err = None
        del seen[:]
        if entry == 'mod':
            return E.callp(st, C.methods['sort'][0], [1, C.tuple(st, [obj]), kwargs(ctx, st, kind=ks)])
        return E.callp(st, C.arrfunc(st, t, 'sort%d' % SLOT[kind]), [buf + spec['off'], n, own])

    paths = 0
    for st, r, dead in PathExplorer(E, limit, True, True).paths(base, guarded(ctx, base, fn)):
        paths += 1
        report(rec, E, cand)
        if dead:
            if 'cut' in str(dead):
                raise Unsupported(str(dead))
            continue
        if entry == 'mod':
            if type(r) is not int:
                raise Unsupported('symbolic result')
            need(rec, E, 1 if r == 0 or C.err is not None else 0, cand, 'raises %s' % C.err)
            if r == 0:
                continue
            info = C.arrinfo(st, r)
            need(rec, E, 0 if info['t'] == t and info['es'] == es and list(info['shape']) == spec['shape'] and r != obj else 1, cand, 'type or shape')
            if info['es'] != es or list(info['shape']) != spec['shape']:
                continue
            need(rec, E, unchanged(E, st, buf, snap), cand, 'input changed')
            need(rec, E, 0 if refs(ctx, st, [obj]) == rc and refs(ctx, st, [r]) == [1] and ([E.load(st, ks, 8)] if ks else []) == rc2 else 1, cand, 'references')
            out = [elem(E, st, info['data'] + k * info['strides'][0] if n else 0, 0, es) for k in range(n)]
        else:
            if seen:
                # left to NumPy: with its own arguments
                ok = len(seen) == 1 and same_type(seen[0][0], t) and seen[0][1] == 'sort%d' % SLOT[kind] and seen[0][2][:3] == [buf + spec['off'], n, own]
                need(rec, E, 0 if ok else 1, cand, 'arguments passed on')
                need(rec, E, unchanged(E, st, buf, snap), cand, 'changed before NumPy sorts')
                rec.reach('left to NumPy')
                continue
            need(rec, E, X.bnot(X.eq(X.extract(r, 31, 0), 0, 32)), cand, 'fails')
            out = [elem(E, st, buf, spec['off'] + k * spec['strides'][0], es) for k in range(n)]
            if entry == 'buf':
                need(rec, E, unchanged(E, st, ob, osnap), cand, 'the array changed instead of the buffer')
        ks_ = [okey(t, es, v) for v in out]
        bad = 0
        for a, b in zip(ks_, ks_[1:]):
            bad = X.bor(bad, X.ult(b, a, es * 8))
        need(rec, E, bad, cand, 'order')
        need(rec, E, differ_multiset(E, vals, out, es * 8), cand, 'elements')
        rec.reach('sorted')
    C.npfunc_handler = None
    if paths > 1:
        rec.reach('several paths')


def odd_sort_job(ctx, rec, key, what):
    """arguments sort has to refuse"""
    E, C = ctx.E, ctx.C
    cand = dict(key=key, odd=what)
    st = begin(ctx, True)
    if what == 'noarray':
        args = [C.long(st, 5)]
    elif what == 'none':
        args = []
    elif what == 'swapped':
        args = [array(ctx, st, arr(5, 3, byteorder='>'), 'a', ['x', 'y', 'z'])[0]]
    elif what == 'object':
        args = [make(ctx, st, arr(17, 2), 'a', lambda i, g: C.none())[0]]
    elif what == 'complex':
        args = [make(ctx, st, arr(15, 2), 'a')[0]]
    elif what == 'void':
        args = [make(ctx, st, arr(20, 2, 1, 5), 'a')[0]]
    elif what == '2d':
        args = [make(ctx, st, arr(5, 0, 1, shape=(2, 2), strides=(16, 4)), 'a')[0]]
    C.err = None
    dead = None
    try:
        r = E.callp(st, C.methods['sort'][0], [1, C.tuple(st, args), 0])
    except PathDead as e:
        dead = e
    report(rec, E, cand)
    if dead is None:
        need(rec, E, 0 if r == 0 and C.err is not None else 1, cand, 'accepted')
        rec.reach('refused')


# ------------------------------------------------------------ P15
def lookup(idx, vals, w):
    if type(idx) is int:
        return vals[idx] if idx < len(vals) else 0
    out = 0
    for k in reversed(range(len(vals))):
        out = X.ite(X.eq(idx, k, 64), vals[k], out, w)
    return out


def check_index(rec, E, cand, given, idx, keys, w, stable):
    """idx is a permutation of given (both 64 bit), ordered by keys[idx]; stable: equal keys in the order of given"""
    n = len(given)
    bad = 0
    for v in idx:
        bad = X.bor(bad, X.bnot(X.ult(v, len(keys), 64)))
    need(rec, E, bad, cand, 'index out of range')
    need(rec, E, differ_multiset(E, given, idx, 64), cand, 'not a permutation')
    ks = [lookup(v, keys, w) for v in idx]
    place = {}
    for k, v in enumerate(given):
        place.setdefault(v if type(v) is int else ('t', v.id), k)
    pos = [place.get(v if type(v) is int else ('t', v.id)) for v in idx]
    bad = 0
    for k in range(n - 1):
        bad = X.bor(bad, X.ult(ks[k + 1], ks[k], w))
        if stable:
            if pos[k] is None or pos[k + 1] is None:
                raise Unsupported('symbolic positions')
            if pos[k] > pos[k + 1]:
                bad = X.bor(bad, X.eq(ks[k], ks[k + 1], w))
    need(rec, E, bad, cand, 'order')


def arg_job(ctx, rec, key, t, es, kind, pat, par, limit, align=0):
    """the argsort functions NumPy calls"""
    E, C = ctx.E, ctx.C
    n = len(pat)
    spec = arr(t, n, 1, es, align=align)
    cand = dict(key=key, entry='arg', t=t, es=es, kind=kind, pat=pat, par=par, align=align, perm=getattr(ctx, 'perm', None))
    base = begin(ctx, par)
    obj, buf, vals = array(ctx, base, spec, 'a', pat)
    ispec = arr(7, n)
    io, ib = make(ctx, base, ispec, 'i', lambda i, g: i)
    snap = snapshot(E, base, buf)
    seen = []
    punts(ctx, base, seen)
    keys = [okey(t, es, v) for v in vals]

    def fn(st):
        del seen[:]
        return E.callp(st, C.arrfunc(st, t, 'argsort%d' % SLOT[kind]), [buf + spec['off'], ib, n, obj])

    for st, r, dead in PathExplorer(E, limit, True, True).paths(base, guarded(ctx, base, fn)):
        report(rec, E, cand)
        if dead:
            if 'cut' in str(dead):
                raise Unsupported(str(dead))
            continue
        need(rec, E, unchanged(E, st, buf, snap), cand, 'values changed')
        idx = [E.load(st, ib + 8 * k, 8) for k in range(n)]
        if seen:
            ok = len(seen) == 1 and same_type(seen[0][0], t) and seen[0][1] == 'argsort%d' % SLOT[kind] and seen[0][2][:4] == [buf + spec['off'], ib, n, obj]
            need(rec, E, 0 if ok and idx == list(range(n)) else 1, cand, 'arguments passed on')
            rec.reach('left to NumPy')
            continue
        need(rec, E, X.bnot(X.eq(X.extract(r, 31, 0), 0, 32)), cand, 'fails')
        check_index(rec, E, cand, list(range(n)), idx, keys, es * 8, kind == 's')
        rec.reach('argsort')
    C.npfunc_handler = None


def lex_job(ctx, rec, key, bits, cols, kind, par, limit, cut=None, index=None, aslist=True):
    """lexsort32/64 of columns [(t, es, pattern, step)]; cut: list of cutoffs, index: list of start indexes (ints or names)"""
    E, C = ctx.E, ctx.C
    n = len(cols[0][2])
    cand = dict(key=key, entry='lex', bits=bits, cols=cols, kind=kind, par=par, cut=cut, index=index, aslist=aslist, perm=getattr(ctx, 'perm', None))
    base = begin(ctx, par)
    objs, bufs, snaps = [], [], []
    K = []
    for k, (t, es, pat, step) in enumerate(cols):
        spec = arr(t, len(pat), step, es)
        o, b, v = array(ctx, base, spec, 'c%d' % k, pat)
        objs.append(o)
        bufs.append(b)
        snaps.append(snapshot(E, base, b))
        K.append([(okey(t, es, x), es * 8) for x in v])
    stable = kind in (None, 's', 'm') or cut is not None
    used = K if stable else K[-1:]
    W = sum(c[0][1] for c in used) if n else 8
    keys = [X.concat([c[i] for c in used]) if len(used) > 1 else used[0][i][0] for i in range(n)]
    ks = pystr(ctx, base, KINDS[kind])
    it = 7 if bits == 64 else 5
    isz = bits // 8
    co = cb = xo = xb = None

    def num(v, w):
        return X.var(v, w) if type(v) is str else v & ((1 << w) - 1)
    if cut is not None:
        cutv = [num(v, 64) for v in cut]
        co, cb = make(ctx, base, arr(7, len(cut)), 'cut', lambda i, g: cutv[i] if i < len(cutv) else 0)
    if index is not None:
        given = [num(v, bits) for v in index]
        xo, xb = make(ctx, base, arr(it, len(index)), 'idx', lambda i, g: given[i] if i < len(given) else 0)
        xsnap = snapshot(E, base, xb)
    rc = refs(ctx, base, objs)

    def fn(st):
        C.err = None
        a = C.tuple(st, [C.list(st, objs)] if aslist else objs)
        return E.callp(st, C.methods['lexsort%d' % bits][0], [1, a, kwargs(ctx, st, kind=ks, cutoffs=co, index=xo)])

    def sx(v):
        return v if bits == 64 else (X.sext(v, 32, 64) if type(v) is not int else v if v < 1 << 31 else v | (M64 ^ 0xffffffff))

    valid = 1
    if cut is not None:
        prev = 0
        for v in cutv:
            valid = X.balls([valid, X.sle(0, v, 64), X.sle(prev, v, 64)])
            prev = v
        valid = X.band(valid, X.eq(prev, n, 64)) if cutv else 0
    if index is not None:
        for v in given:
            valid = X.band(valid, X.ult(sx(v), n, 64))
        if len(given) > n or cut is not None:
            valid = 0
    if n != max([n] + [len(c[2]) for c in cols]) or n != min([n] + [len(c[2]) for c in cols]):
        valid = 0
    for st, r, dead in PathExplorer(E, limit, True, True).paths(base, guarded(ctx, base, fn)):
        report(rec, E, cand)
        if dead:
            if 'cut' in str(dead):
                raise Unsupported(str(dead))
            continue
        if type(r) is not int:
            raise Unsupported('symbolic result')
        bad = 0
        for b, s in zip(bufs, snaps):
            bad = X.bor(bad, unchanged(E, st, b, s))
        need(rec, E, bad, cand, 'keys changed')
        need(rec, E, 0 if refs(ctx, st, objs) == rc else 1, cand, 'references')
        if r == 0:
            need(rec, E, 0 if C.err is not None else 1, cand, 'no error set')
            need(rec, E, valid, cand, 'raises %s' % C.err)
            if index is not None:
                need(rec, E, unchanged(E, st, xb, xsnap), cand, 'index changed')
            rec.reach('refused')
            continue
        need(rec, E, X.bnot(valid), cand, 'accepted')
        if type(valid) is int and not valid:
            continue
        need(rec, E, 0 if C.err is None else 1, cand, 'result with an error set')
        info = C.arrinfo(st, r)
        m = n if index is None else len(index)
        ok = info['t'] in ((5,) if bits == 32 else (7, 9)) and list(info['shape']) == [m] and (index is None or r == xo)
        need(rec, E, 0 if ok else 1, cand, 'type or shape')
        if not ok:
            continue
        out = [sx(elem(E, st, info['data'] + k * info['strides'][0], 0, isz)) for k in range(m)]
        if cut is not None:
            mod = model(E)

            def fixed(v):
                # the partitions are determined on a path, and the indexes with them
                if type(v) is int:
                    return v
                x = X.evaluate(v, Env(mod))
                if E.feasible(X.bnot(X.eq(v, x, 64))):
                    raise Unsupported('partitions not determined')
                return x
            cv = [fixed(v) for v in cutv]
            out = [fixed(v) for v in out]
            s = 0
            for e in cv:
                if e - s > n or e < s:
                    break
                check_index(rec, E, cand, list(range(e - s)), out[s:e], keys[s:e], W, True)
                s = e
            rec.reach('partitions')
        else:
            check_index(rec, E, cand, list(range(n)) if index is None else [sx(v) for v in given], out, keys, W, stable)
            rec.reach('lexsort' if index is None else 'index')


def odd_lex_job(ctx, rec, key, what):
    """arguments lexsort has to refuse"""
    E, C = ctx.E, ctx.C
    cand = dict(key=key, odd=what)
    st = begin(ctx, True)
    a = array(ctx, st, arr(5, 3), 'a', ['x', 'y', 'z'])[0]
    kw = {}
    args = [a]
    if what == 'none':
        args = [C.list(st, [a, C.none()])]
    elif what == 'empty':
        args = [C.list(st, [])]
    elif what == 'noargs':
        args = []
    elif what == 'swapped':
        args = [a, array(ctx, st, arr(5, 3, byteorder='>'), 'b', ['x', 'y', 'z'])[0]]
    elif what == 'object':
        args = [make(ctx, st, arr(17, 3), 'b', lambda i, g: C.none())[0]]
    elif what == 'complex':
        args = [make(ctx, st, arr(15, 3), 'b')[0], a]
    elif what == 'void':
        args = [make(ctx, st, arr(20, 3, 1, 5), 'b')[0]]
    elif what == 'lengths':
        args = [C.list(st, [a, array(ctx, st, arr(5, 4), 'b', ['x', 'y', 'z', 'x'])[0]])]
    elif what == 'cuttype':
        kw = dict(cutoffs=make(ctx, st, arr(5, 1), 'b', lambda i, g: 3)[0])
    elif what == 'cutstride':
        kw = dict(cutoffs=make(ctx, st, arr(7, 2, 2), 'b', lambda i, g: (1, 9, 3)[i])[0])
    elif what == 'idxtype':
        kw = dict(index=make(ctx, st, arr(12, 2), 'b', lambda i, g: 0)[0])
    elif what == 'idxother':
        kw = dict(index=make(ctx, st, arr(5, 2), 'b', lambda i, g: 0)[0])
    elif what == 'idxstride':
        kw = dict(index=make(ctx, st, arr(7, 2, 2), 'b', lambda i, g: i)[0])
    C.err = None
    dead = None
    try:
        r = E.callp(st, C.methods['lexsort64'][0], [1, C.tuple(st, args), kwargs(ctx, st, **kw)])
    except PathDead as e:
        dead = e
    report(rec, E, cand)
    if dead is None:
        need(rec, E, 0 if r == 0 and C.err is not None or what in NOKEYS and r == C.none() and C.err is None else 1, cand, 'accepted')
        rec.reach('refused')


NOKEYS = ('empty', 'noargs')    # None is an answer too


# ------------------------------------------------------------ replay
BODY = r'''
import struct


def raws(x):
    b = np.ascontiguousarray(x).tobytes()
    es = x.dtype.itemsize
    return [b[i:i + es] for i in range(0, len(b), es)]


def keyf(dt):
    if dt.kind == 'S':
        return lambda b: b
    if dt.kind == 'U':
        return lambda b: struct.unpack('<%dI' % (len(b) // 4), b)
    if dt.kind == 'f':
        f = {2: '<e', 4: '<f', 8: '<d'}[dt.itemsize]

        def k(b):
            v = struct.unpack(f, b)[0]
            return (1, 0) if v != v else (0, v)
        return k
    return lambda b: int.from_bytes(b, 'little', signed=dt.kind == 'i')


def grow(x, how):
    """the same values in an array above the threading limit"""
    if how is None:
        return x
    n = len(x)
    m = -(-65536 // n)
    b = np.ascontiguousarray(x)
    i = np.arange(n * m)
    if how == 'repeat':
        i = i // m
    elif how == 'tile':
        i = i % n
    else:
        s = np.uint64(how)
        i = ((i.astype('u8') * np.uint64(2654435761) + s) >> np.uint64(7)).astype('i8') % n
    g = np.frombuffer(np.ascontiguousarray(b.view('u1').reshape(n, -1)[i]).tobytes(), x.dtype).copy()
    st = x.strides[0]
    if st != x.itemsize:
        raw = np.zeros(abs(st) * len(g) + x.itemsize, 'u1')
        a = np.ndarray((len(g),), x.dtype, raw, 0 if st > 0 else -st * (len(g) - 1), (st,))
        a[...] = g
        return a
    return g


def check(dt, before, after, what):
    k = keyf(dt)
    ks = [k(b) for b in after]
    for i in range(len(ks) - 1):
        if ks[i + 1] < ks[i]:
            return '%s: element %d (%s) is behind the larger %s' % (what, i + 1, after[i + 1].hex(), after[i].hex())
    if sorted(before) != sorted(after):
        return '%s: the elements are not those of the input' % what
    return None


def order(keys, given, out, stable, what):
    if len(given) != len(out):
        return '%s: %d indexes instead of %d' % (what, len(out), len(given))
    if sorted(given) != sorted(out):
        return '%s: not a permutation: %s' % (what, out[:20])
    pos = {}
    for i, g in enumerate(given):
        pos.setdefault(g, i)
    for i in range(len(out) - 1):
        a, b = keys[out[i]], keys[out[i + 1]]
        if b < a:
            return '%s: out of order at %d' % (what, i)
        if stable and a == b and pos[out[i]] > pos[out[i + 1]]:
            return '%s: equal keys swapped at %d' % (what, i)
    return None


KN = {'q': 'quicksort', 'h': 'heapsort', 's': 'stable', 'm': 'mergesort'}


def run(c, place):
    kw = {'kind': KN[c['kind']]} if c.get('kind') else {}
    if c['entry'] == 'odd':
        return odd(c['odd'])
    for how in c['grow']:
        t = one(c, place, kw, how)
        if t:
            return t
    return None


def one(c, place, kw, how):
    e = c['entry']
    if e == 'lex':
        cols, ds = [], []
        for s in c['cols']:
            x, d = make(s, place)
            cols.append(grow(x, how))
            ds.append((d, x, how))
        n = len(cols[0])
        stable = c['kind'] in (None, 's', 'm') or c['cut'] is not None
        ks = [[keyf(x.dtype)(b) for b in raws(x)] for x in (cols if stable else cols[-1:])]
        keys = list(zip(*reversed(ks)))
        f = P.lexsort32 if c['bits'] == 32 else P.lexsort64
        it = 'i4' if c['bits'] == 32 else 'i8'
        cut = idx = None
        if c['cut'] is not None:
            m = n // len(ks[0]) if how is None else n // c['n']
            kw['cutoffs'] = cut = np.array([v * (m if how else 1) for v in c['cut']], 'i8')
        if c['index'] is not None:
            iv = np.array(c['index'], it)
            if how:
                iv = np.arange(n)[::-1].astype(it).copy()
            kw['index'] = idx = iv
            given = iv.tolist()
        ok = all(len(x) == n for x in cols)
        if cut is not None:
            l = cut.tolist()
            ok = ok and bool(l) and l[0] >= 0 and all(a <= b for a, b in zip(l, l[1:])) and l[-1] == n
        if idx is not None:
            ok = ok and cut is None and len(given) <= n and all(0 <= v < n for v in given)
        try:
            r = f(list(cols), **kw) if c['aslist'] else f(*cols, **kw)
        except Exception as ex:
            return 'raised %s' % ex if ok else None
        if not ok:
            return 'accepted arguments out of range'
        for d, x, h in ds:
            if ctypes.string_at(d[0], len(d[1])) != d[1]:
                return 'a key was changed'
        if r.dtype != np.dtype(it):
            return 'dtype %s' % r.dtype
        out = r.tolist()
        if cut is not None:
            s = 0
            for q in cut.tolist():
                t = order(keys[s:q], list(range(q - s)), out[s:q], True, 'partition %d:%d' % (s, q))
                if t:
                    return t
                s = q
            return None
        return order(keys, list(range(n)) if idx is None else given, out, stable, 'lexsort')
    x, d = make(c['arr'], place)
    a = grow(x, how)
    before = raws(a)
    if e == 'arg':
        out = a.argsort(**kw).tolist()
        if raws(a) != before:
            return 'the values were changed'
        k = keyf(a.dtype)
        return order([k(b) for b in before], list(range(len(a))), out, c['kind'] == 's', 'argsort')
    if e == 'mod':
        r = P.sort(a, **kw)
        if raws(a) != before or how is None and ctypes.string_at(d[0], len(d[1])) != d[1]:
            return 'the input was changed'
        if r.dtype != a.dtype or r.shape != a.shape:
            return 'result is %s %s' % (r.dtype, r.shape)
        return check(a.dtype, before, raws(r), 'sort')
    if e == 'hook':
        a.sort(**kw)
        return check(a.dtype, before, raws(a), 'array.sort')
    w = a.astype(a.dtype.newbyteorder('>')) if a.dtype.itemsize > 1 and a.dtype.kind != 'S' else a
    w.sort(**kw)
    t = check(a.dtype, before, raws(w.astype(a.dtype)), 'array.sort of swapped values')
    if t:
        return t
    w = np.zeros(3 * len(a), a.dtype)[::3]
    w[...] = a
    w.sort(**kw)
    return check(a.dtype, before, raws(w), 'array.sort of a strided array')


def odd(what):
    a = np.array([3, 1, 2], 'i4')
    o = np.array([1, 2, 3], object)
    v = np.zeros(2, 'V5')
    if what.startswith('sort-'):
        f = P.sort
        args = {'sort-noarray': (5,), 'sort-none': (), 'sort-swapped': (a.astype('>i4'),), 'sort-object': (o,), 'sort-complex': (a.astype('c16'),), 'sort-void': (v,),
                'sort-2d': (np.zeros((4, 4), 'i4')[::2, :2],)}[what]
        kw = {}
    else:
        f = P.lexsort64
        args, kw = {'none': (([a, None],), {}), 'empty': (([],), {}), 'noargs': ((), {}), 'swapped': ((a, a.astype('>i4')), {}), 'object': ((o,), {}), 'complex': ((a.astype('c16'), a), {}),
                    'void': ((np.zeros(3, 'V5'),), {}), 'lengths': (([a, np.arange(4, dtype='i4')],), {}), 'cuttype': ((a,), dict(cutoffs=np.array([3], 'i4'))),
                    'cutstride': ((a,), dict(cutoffs=np.array([1, 9, 3], 'i8')[::2])), 'idxtype': ((a,), dict(index=np.zeros(2))), 'idxother': ((a,), dict(index=np.zeros(2, 'i4'))),
                    'idxstride': ((a,), dict(index=np.zeros(4, 'i8')[::2]))}[what]
    try:
        r = f(*args, **kw)
    except SystemError:
        raise
    except Exception as e:
        return None
    if what in ('empty', 'noargs') and r is None:
        return None
    return 'accepted %s: %r' % (what, r)


def run_(c, place):
    try:
        return run(c, place)
    except SystemError as e:
        return 'SystemError: %s' % e
main(run_)
'''


STRESS = r'''
CASES = json.loads(%r)
def column(c, n, var, rng):
    t = c[0]
    if t in ('S', 'U'):
        a = rng.integers(97, 100, (n, c[1])).astype('u1').view('S%%d' %% c[1])[:, 0]
        a = a.astype('%%s%%d' %% (t, c[1]))
    elif t == '?': a = rng.integers(0, 2, n).astype('?')
    elif t[0] == 'f': a = rng.integers(0, n if t != 'f2' else 2000, n).astype(t)
    else: a = rng.integers(0, min(n, np.iinfo(t).max), n).astype(t)
    # parts that take different times: sorted ones are fast
    for k in range(8):
        if var >> k & 1:
            x = slice(k * n // 8, (k + 1) * n // 8)
            a[x] = np.sort(a[x], kind='stable')
    return a
rng = np.random.default_rng(3)
W = []
for c in CASES:
    for n in (65536, 65539, 70001, 98303, 131073):
        for var in (0, 0x55, 0xaa, 0x0f, 0xf0, 0x3c):
            cols = [column(d, n, var, rng) for d in c['cols']]
            W.append((c, cols, np.lexsort(cols) if c['entry'] != 'sort' else np.sort(cols[0], kind='stable')))
import pnumpy as pn
pn.initialize() if hasattr(pn, 'initialize') else None
P = pn._pnumpy
KN = dict(q='quicksort', h='heapsort', s='mergesort')
t0 = time.time()
while time.time() - t0 < 25:
    for c, cols, want in W:
        alive()
        kw = {'kind': KN[c['kind']]} if c['kind'] else {}
        if c['entry'] == 'sort':
            r = cols[0].copy()
            r.sort(**kw)
            ok = np.array_equal(r, want)
            if ok: ok = np.array_equal(P.sort(cols[0], **kw), want)
        elif c['entry'] == 'arg':
            r = cols[0].argsort(**kw)
            ok = np.array_equal(r, want) if c['kind'] == 's' else np.array_equal(cols[0][r], cols[0][want]) and np.array_equal(np.sort(r), np.arange(len(r)))
        else:
            r = getattr(P, 'lexsort%%d' %% c['bits'])(cols, **kw)
            ok = np.array_equal(r, want) if c['kind'] in (None, 's') else np.array_equal(cols[-1][r], cols[-1][want]) and np.array_equal(np.sort(r), np.arange(len(r)))
        if not ok:
            print('%%s of %%d elements (%%s, kind %%s) is wrong in some runs' %% (c['entry'], len(cols[0]), [x.dtype.str for x in cols], c['kind']))
            sys.exit(1)
signal.alarm(0)
sys.exit(0)
'''
NAMES = {0: '?', 1: 'i1', 2: 'u1', 3: 'i2', 4: 'u2', 5: 'i4', 6: 'u4', 7: 'i8', 8: 'u8', 9: 'i8', 10: 'u8', 11: 'f4', 12: 'f8', 23: 'f2'}


def scaled_ir():
    """the IR of the current sources with the size above which work is shared by threads (65536 elements) lowered to 16"""
    p = build.build_ir()
    text = open(p).read()
    text, k = re.subn(r'(icmp (?:s|u)(?:lt|gt|le|ge) i(?:64|32) %[\w.]+, )(6553[56])\b', lambda m: m.group(1) + ('16' if m.group(2) == '65536' else '15'), text)
    q = os.path.join(build.scratch('sort_'), 'scaled.ll')
    with open(q, 'w') as f:
        f.write(text)
    return q


def syms(n, k=None):
    return ['x%d' % i for i in range(n)]


def ranks(n, k, seed):
    """n ranks below k in a fixed disorder"""
    return [((i * 7919 + seed * 104729) ^ (i * i * 31 + seed)) % 1009 % k for i in range(n)]


def put(pat, **at):
    pat = list(pat)
    for s, places in at.items():
        for p in places:
            pat[p] = s
    return pat


def killer(n):
    """ranks on which partitions around the median of three split off as little as possible (McIlroy), down to 30 elements"""
    val = [None] * n
    state = dict(solid=0, cand=0)

    def freeze(x):
        val[x] = state['solid']
        state['solid'] += 1

    def lt(x, y):
        if val[x] is None and val[y] is None:
            freeze(x if x == state['cand'] else y)
        if val[x] is None:
            state['cand'] = x
        elif val[y] is None:
            state['cand'] = y
        a, b = (n if val[k] is None else val[k] for k in (x, y))
        return a < b
    v = list(range(n))
    depth = (n.bit_length() - 1) * 2
    work = [(0, n - 1, depth)]
    while work:
        pl, pr, d = work.pop()
        if d < 0:
            continue
        while pr - pl > 30 and d >= 0:
            pm = (pl + pr) >> 1
            for a, b in ((pm, pl), (pr, pm), (pm, pl)):
                if lt(v[a], v[b]):
                    v[a], v[b] = v[b], v[a]
            vp = v[pm]
            i, j = pl, pr - 1
            v[pm], v[j] = v[j], v[pm]
            while True:
                i += 1
                while lt(v[i], vp):
                    i += 1
                j -= 1
                while lt(vp, v[j]):
                    j -= 1
                if i >= j:
                    break
                v[i], v[j] = v[j], v[i]
            v[i], v[pr - 1] = v[pr - 1], v[i]
            d -= 1
            if i - pl < pr - i:
                work.append((i + 1, pr, d))
                pr = i - 1
            else:
                work.append((pl, i - 1, d))
                pl = i + 1
    for k in sorted(range(n), key=lambda k: (k * 7919) % 101):
        if val[k] is None:
            freeze(k)
    return val


class SortCheck(ApiCheck):
    def build(self):
        return scaled_ir()

    def group(self, c):
        return c['key'].split('#')[0]

    def replay(self, ctx, c):
        if 'odd' in c:
            return replay(self.pid, c['key'], BODY, [dict(entry='odd', odd=('sort-' if self.pid == 'P14' else '') + c['odd'])])
        if c.get('perm'):
            cols = [(t, es) for t, es, p, step in c['cols']] if c['entry'] == 'lex' else [(c['t'], c['es'])]
            cols = [('SU'[t - 18], es // (4 if t == 19 else 1)) if t in (18, 19) else (NAMES[t], es) for t, es in cols]
            return par_replay(self.pid, c['key'], STRESS, [dict(entry='sort' if c['entry'] in ('mod', 'hook') else c['entry'], cols=cols, kind=c['kind'], bits=c.get('bits'))], (0, 1, 2, 3))
        cs = []
        for env in ((c.get('env') or {}), {}):
            grow = [None] + (['repeat', 'tile', 1, 99, 12345] if c['par'] else [])
            d = dict(entry=c['entry'], kind=c['kind'], grow=grow)
            if c['entry'] == 'lex':
                def num(v, w):
                    v = env.get(v, 0) if type(v) is str else v & ((1 << w) - 1)
                    return v - (1 << w) if v >> (w - 1) else v
                d.update(bits=c['bits'], aslist=c['aslist'], n=len(c['cols'][0][2]),
                         cols=[self.col(arr(t, len(p), step, es), p, env) for k, (t, es, p, step) in enumerate(c['cols'])],
                         cut=None if c['cut'] is None else [num(v, 64) for v in c['cut']], index=None if c['index'] is None else [num(v, c['bits']) for v in c['index']])
            else:
                d.update(arr=self.col(arr(c['t'], len(c['pat']), c.get('step', 1), c['es'], pad=c.get('pad', 0), align=c['align']), c['pat'], env))
            cs.append(d)
        return replay(self.pid, c['key'], BODY, cs)

    def col(self, spec, pat, env):
        return jarr(spec, concrete(spec, pat, env))


PERMS = [(0, 1, 2, 3, 4, 5, 6, 7), (7, 6, 5, 4, 3, 2, 1, 0), (1, 0, 3, 2, 5, 4, 7, 6), (4, 7, 0, 2, 6, 1, 5, 3), (6, 3, 5, 1, 7, 2, 4, 0), (1, 3, 5, 7, 0, 2, 4, 6)]
TYPES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12]
STR = [(18, 3), (18, 1), (18, 7), (19, 4), (19, 12)]


class P14(SortCheck):
    """sort"""
    pid = 'P14'

    def jobs(self, ctx):
        J = []
        th = ctx.tier == 'thorough'

        def add(entry, t, es, kind, pat, step=1, pad=0, par=False, limit=4000, align=0, w=1, name=''):
            k = '%s%s:%s:%s%d%s#%d' % (entry, '+par' if par else '', tag(t, es), kind or '-', len(pat), name, len(J))
            J.append((k, sort_job, (entry, t, es, kind, pat, step, pad, par, limit, align), w))

        # every value symbolic
        for t in TYPES + [9, 10, 23]:
            fl = t in MANT
            for kind in (None, 'q', 'h', 's', 'm'):
                for n in (0, 1, 2, 3, 4):
                    if n == 4 and (fl and (t == 23 or kind in ('q', 'm')) or not th and kind in (None, 'm')):
                        continue
                    add('mod', t, ES[t], kind, syms(n), w=4 ** n / 16.0 * (3 if fl else 1))
            if t != 23:
                for kind in 'qhs':
                    for n in (1, 3, 4):
                        if n == 4 and fl:
                            continue
                        add('hook', t, ES[t], kind, syms(n), w=4 ** n / 16.0 * (3 if fl else 1))
                add('buf', t, ES[t], 'qhs'[t % 3], syms(3), w=4)
        for t, es in STR:
            for kind in (None, 'q', 'h', 's', 'm'):
                for n in (0, 1, 2, 3):
                    add('mod', t, es, kind, syms(n), w=n * n)
        # steps between the elements, both directions; places in memory
        for t, es in [(5, 4), (12, 8), (1, 1), (3, 2), (23, 2), (18, 3), (18, 5), (19, 8)]:
            for step, pad in ((2, 0), (-1, 0), (-3, 0), (0, 0), (1, 1), (2, 3)):
                add('mod', t, es, 'qhs'[(step + pad) % 3], ['x', 'y', 'z'] if step else ['x'] * 3, step=step, pad=pad, w=4, name='+%d.%d' % (step, pad))
            add('mod', t, es, None, syms(3), align=1, w=4, name='@1')
        # more elements: insertion, partition, merge; some symbolic between fixed ones, or many equal ones
        sizes = (15, 16, 17, 21, 31, 32, 37, 48) if th else (15, 16, 17, 31, 33)
        for t, es in [(k, ES[k]) for k in (5, 12, 2, 7, 11, 3, 23, 1, 8)] + [(18, 3), (19, 8), (18, 9)]:
            for kind in 'qhs':
                for n in sizes:
                    if not th and t in (7, 11, 3, 1, 8) and n not in (17, 33):
                        continue
                    for v in range(3):
                        p = ranks(n, n if v != 1 else 6, n + v)
                        if v == 2:
                            p = sorted(p, reverse=kind == 'q')
                        if t in MANT:
                            p = put(p, nan=[n // 3, n - 1, n // 2])
                        p = put(p, x=[(n * 5 // 7 + v) % n] + ([(n // 4 + 3) % n] if v == 1 else []))
                        add('mod', t, es, kind, p, w=n / 2, name='v%d' % v)
        for t, es in [(5, 4), (12, 8), (18, 2)]:
            for kind in 'qhs':
                for n in ((17, 33) if not th else (16, 19, 33, 40)):
                    # two symbolic values among fixed ones
                    if n < 20:
                        add('mod', t, es, kind, put(ranks(n, 7, n), x=[n // 2], y=[1]), w=60, name='xy')
                    # every element one of three symbolic values
                    add('mod', t, es, kind, ['xyz'[r] for r in ranks(n, 3, n)], w=12, name='r')
                    add('hook' if t != 18 else 'mod', t, es, kind, ['xy'[r] for r in ranks(n, 2, n + 1)], w=6, name='r')
        # shared by threads: eight parts and three levels of merges
        for t, es in [(k, ES[k]) for k in TYPES + [23]] + [(18, 3), (19, 8), (18, 16)]:
            for k, kind in enumerate('qhs'):
                for n in ((16, 17, 23, 40, 70, 133) if th else (17, 40, 70)):
                    if n == 70 and not th and t not in (5, 12, 18):
                        continue
                    v = (n + k + t) % 2
                    p = ranks(n, n if not v else 5, n + v)
                    if t in MANT:
                        p = put(p, nan=[n // 3, n - 1, n // 2])
                    p = put(p, x=[(n * 5 // 7 + v) % n] + ([2] if v else []))
                    add('mod', t, es, kind, p, step=(1, 1, 2, -1)[(n + k) % 4], par=True, w=n / 2, name='v%d' % v)
            if t not in (18, 19, 23):
                add('hook', t, es, 'qhs'[t % 3], put(ranks(24, 24, t), x=[t, 23]), par=True, w=15)
                add('buf', t, es, 'qh'[t % 2], put(ranks(21, 24, t), x=[t]), par=True, w=12)
        # every size in a range; a quicksort that falls back to heapsort
        for n in range(16, 100 if th else 48):
            for kind in 'qhs':
                p = ranks(n, n if n % 3 else 7, n)
                add('mod', 5, 4, kind, put(p, x=[n * 2 // 3]), par=True, w=n / 2, name='z')
                if kind != 's' or n % 4 == 0:
                    add('mod', (7, 12)[n % 2], 8, kind, put(p, x=[n // 3]), w=n / 2, name='z')
            add('mod', 18, (3, 9)[n % 2], 'qhs'[n % 3], put(ranks(n, n, n + 1), x=[n // 3]), par=n % 4 != 0, w=n, name='z')
        for k, n in enumerate((49, 64, 85, 90, 129, 171) + ((300, 257) if th else ())):
            for t in (5, 12, 3, 23, 18):
                for i, kind in enumerate('sq'):
                    p = put(ranks(n, 5, n + i), x=[n * 3 // 7])
                    if t in MANT:
                        p = put(p, nan=[n // 5, n // 2, n - 1])
                    add('mod', t, ES.get(t, 5), kind, p, step=(1, 2)[(k + t) % 2], w=n / 2, name='y')
        for k, n in enumerate((333, 385) if th else (333,)):
            for t in (5, 12, 18):
                for kind in 'sq':
                    add('mod', t, ES.get(t, 5), kind, put(ranks(n, 4, n), x=[n * 3 // 7]), par=True, w=n / 2, name='y')
        for t in (5, 12, 4, 18):
            for n in (64, 96, 128) if th else (96,):
                p = killer(n)
                for x in (n // 4, n // 2 + 5, n - 4):
                    add('mod', t, ES.get(t, 4), 'q', put(p, x=[x]), w=n, name='k')
        # parts that run in another order
        for k, (t, es) in enumerate([(5, 4), (12, 8), (2, 1), (11, 4), (3, 2), (23, 2), (7, 8), (18, 3), (19, 8)]):
            for i, perm in enumerate(PERMS):
                for kind in 'qhs' if th or t in (5, 18) else 'qhs'[(k + i) % 3]:
                    for n in ((17, 23, 30, 47) if th else ((17, 23, 40, 46)[(i + k) % 4],)):
                        if t in (2, 3) and kind == 's':
                            continue            # left to NumPy
                        p = put(ranks(n, n, n + i), x=[n * 3 // 5])
                        hook = t < 18 and i % 2
                        J.append(('parts:%s:%s:%d#%d' % (tag(t, es), kind, n, len(J)), parts_job, (perm, sort_job, ('hook' if hook else 'mod', t, es, kind, p, 1 if hook else (1, 2, -1)[i % 3], 0, True, 4000)), n))
        for what in ('noarray', 'none', 'swapped', 'object', 'complex', 'void', '2d'):
            J.append(('odd:%s' % what, odd_sort_job, (what,), 1))
        return J

    def bounds(self, ctx):
        return ('12 numeric types (half floats included), 5 string kinds; every kind of sort; 0 to 4 elements all symbolic, 15 to 171 elements (333 in shared leaves) of which one or two, or all as one of '
                'three values, are symbolic among fixed ranks (random, sorted, reversed, few distinct, nan, quicksort killers); steps 1, 2, -1, -3, 0, paddings, offsets; sorts shared by threads for every '
                'size 16 to 47 and some larger, with the size limit 65536 of the compiled code lowered to 16, parts in 6 orders with disjoint footprints required of parts that need not wait for each other')


class P15(SortCheck):
    """argsort and lexsort"""
    pid = 'P15'

    def jobs(self, ctx):
        J = []
        th = ctx.tier == 'thorough'

        def arg(t, es, kind, pat, par=False, limit=4000, align=0, w=1, name=''):
            J.append(('arg%s:%s:%s%d%s#%d' % ('+par' if par else '', tag(t, es), kind, len(pat), name, len(J)), arg_job, (t, es, kind, pat, par, limit, align), w))

        def lex(bits, cols, kind=None, par=False, limit=6000, w=1, name='', **kw):
            k = 'lex%d%s:%s:%s%d%s#%d' % (bits, '+par' if par else '', '/'.join(tag(c[0], c[1]) for c in cols), kind or '-', len(cols[0][2]), name, len(J))
            J.append((k, lex_job, (bits, cols, kind, par, limit, kw.get('cut'), kw.get('index'), kw.get('aslist', True)), w))

        # every value symbolic
        for t in TYPES + [9, 10]:
            fl = t in MANT
            for kind in 'qhs':
                for n in (0, 1, 2, 3, 4) + ((5,) if th and not fl else ()):
                    if n < 4 or not fl or th:
                        arg(t, ES[t], kind, syms(n), w=4 ** n / 16.0 * (3 if fl else 1))
        for t in TYPES + [9, 10, 23]:
            fl = t in MANT
            for bits in (32, 64):
                for kind in (None, 'q', 'h', 's', 'm'):
                    for n in (1, 2, 3, 4):
                        if (n < 4 or kind in (None, 'h') and (not fl or th)) and (th or n < 4 or (bits == 64) == (t % 2 == 1)):
                            lex(bits, [(t, ES[t], syms(n), 1)], kind, w=4 ** n / 16.0 * (3 if fl else 1))
        for t, es in STR:
            for bits in (32, 64):
                for n in (1, 2, 3):
                    for kind in (None, 'q'):
                        lex(bits, [(t, es, syms(n), 1)], kind, w=n * n)
            for kind in 'qhs':
                arg(t, es, kind, syms(3), w=9)
        # no elements; a few keys; steps between the elements
        for bits in (32, 64):
            lex(bits, [(5, 4, [], 1)], name='e')
            lex(bits, [(5, 4, [], 1), (18, 3, [], 1)], name='e')
            for kind in (None, 's', 'q', 'h'):
                lex(bits, [(5, 4, ['a', 'b', 'c'], 1), (12, 8, ['x', 'y', 'z'], 1)], kind, w=40, aslist=bits == 32)
                lex(bits, [(2, 1, ['a', 'b', 'c'], 1), (18, 2, ['x', 'y', 'z'], 1)], kind, w=30, aslist=bits == 64)
                lex(bits, [(0, 1, ['a', 'b', 'c', 'd'], 1), (0, 1, ['x', 'y', 'z', 'w'], 1), (3, 2, [4, 'u', 4, 'u'], 1)], kind, w=30)
                lex(bits, [(23, 2, ['a', 'b'], 1), (19, 8, ['x', 'y'], 1), (7, 8, ['u', 'v'], 1)], kind, w=20)
            for step in (2, -1, 3, -2):
                lex(bits, [(5, 4, ['x', 'y', 'z'], step)], None, w=4, name='+%d' % step)
                lex(bits, [(18, 3, ['x', 'y'], step), (12, 8, ['u', 'v'], step)], None, w=8, name='+%d' % step)
        # more elements
        sizes = (15, 16, 17, 21, 31, 33, 48) if th else (15, 17, 33)
        for t, es in [(k, ES[k]) for k in (5, 12, 2, 11, 7, 3, 1, 8)] + [(18, 3), (19, 8), (18, 9)]:
            for kind in 'qhs':
                for n in sizes:
                    for v in range(3):
                        if n == 33 and v == 1 and not th:
                            continue
                        p = ranks(n, n if v != 1 else 6, n + v)
                        if v == 2:
                            p = sorted(p, reverse=kind == 'q')
                        if t in MANT:
                            p = put(p, nan=[n // 3, n - 1, n // 2])
                        p = put(p, x=[(n * 5 // 7 + v) % n] + ([(n // 4 + 3) % n] if v == 1 else []))
                        if t == 2 and kind == 's' or (n + v + t) % 2:
                            arg(t, es, kind, p, w=n / 2, name='v%d' % v)
                        else:
                            lex((32, 64)[n % 2], [(t, es, p, 1)], kind, w=n / 2, name='v%d' % v)
        for t in (23,):
            for kind in 'qhs':
                for n in (17, 33):
                    lex(64, [(t, 2, put(ranks(n, 9, n), x=[3], nan=[5, n - 2]), 1)], kind, w=n)
        for t, es in [(5, 4), (12, 8), (18, 2)]:
            for kind in 'qhs':
                for n in (17, 33):
                    p = ['xyz'[r] for r in ranks(n, 3, n)]
                    q = ['xy'[r] for r in ranks(n, 2, n + 1)]
                    arg(t, es, kind, p, w=12, name='r')
                    lex(32, [(t, es, q, 1)], kind, w=6, name='r')
                    lex(64, [(t, es, q, 1), (2, 1, put(ranks(n, 3, 5), u=[2, n // 2]), 1)], kind, w=30, name='r')
        # shared by threads
        for t, es in [(k, ES[k]) for k in TYPES] + [(18, 3), (19, 8), (18, 16), (23, 2)]:
            for k, kind in enumerate('qhs'):
                for n in ((16, 17, 23, 40, 70, 133) if th else (17, 40, 70)):
                    if n == 70 and not th and t not in (5, 12, 18):
                        continue
                    v = (n + k + t) % 2
                    p = ranks(n, n if not v else 5, n + v)
                    if t in MANT:
                        p = put(p, nan=[n // 3, n - 1, n // 2])
                    p = put(p, x=[(n * 5 // 7 + v) % n] + ([2] if v else []))
                    if t != 23 and (n + k) % 3:
                        arg(t, es, kind, p, par=True, w=n / 2, name='v%d' % v)
                    else:
                        lex((32, 64)[(n + t) % 2], [(t, es, p, 1)], kind, par=True, w=n / 2, name='v%d' % v)
            lex((32, 64)[t % 2], [(t, es, put(ranks(20, 4, t), x=[7, 19]), 1), (5, 4, put(ranks(20, 3, t + 1), u=[3, 12]), 1)], par=True, w=40, name='2')
        # partitions
        for bits in (32, 64):
            for par in (False, True):
                for t, es in [(5, 4), (12, 8), (18, 3), (19, 8), (1, 1), (23, 2)]:
                    p = put(ranks(22, 6, t), x=[4, 20])
                    if t in MANT:
                        p = put(p, nan=[2, 6, 21])
                    for i, cut in enumerate(([22], [0, 3, 3, 21, 22], [1, 2, 3, 4, 5, 22, 22], [17, 20, 22])):
                        lex(bits, [(t, es, p, 1)], 'qs'[i % 2] if i else None, par, w=10, cut=cut, name='c%d' % i)
                lex(bits, [(5, 4, put(ranks(22, 3, 3), x=[4, 20]), 1), (2, 1, put(ranks(22, 3, 4), y=[5, 21]), 1)], None, par, cut=[4, 20, 22], w=20, name='c2')
            for cut in ([], [2], [3, 2, 4], [-1, 4], [4, 5], [5, 4], [0, 0, 0], ['c', 4], ['c', 'd'], ['c', 'd', 4], ['c']):
                lex(bits, [(5, 4, [3, 1, 2, 0], 1)], None, cut=cut, w=5, name='C')
            lex(bits, [(5, 4, ['x', 'y', 'z'], 1)], None, cut=['c', 3], w=10, name='C')
            lex(bits, [(5, 4, [1, 2, 0], 1)], None, cut=[3], index=[0, 1, 2], name='CI')
        # a given index
        for bits in (32, 64):
            for t, es in [(5, 4), (11, 4), (18, 3)]:
                lex(bits, [(t, es, ['x', 'y', 'z'], 1)], None, index=[2, 0, 1], w=6, name='i')
                lex(bits, [(t, es, ['x', 'y', 'z', 5], 1)], 's', index=[3, 1], w=6, name='i')
                lex(bits, [(t, es, ['x', 'y', 'z'], 1)], None, index=[], w=1, name='i')
                lex(bits, [(t, es, ['x', 5, 'z'], 1)], 'q', index=[1, 1, 0], w=6, name='i')
                lex(bits, [(t, es, put(ranks(40, 7, 1), x=[3, 30]), 1)], 'qs'[t % 2], index=[(k * 7 + 3) % 40 for k in range(33)], par=t == 5, w=20, name='i')
                lex(bits, [(t, es, [4, 2, 9], 1)], 's' if t == 5 else 'q', index=['i', 'j'], w=10, name='I')
            for index in ([3], [-1, 0], [0, 1, 2, 0], [1 << (bits - 1)], ['i'], ['i', 1, 'j'], [1 << (bits - 2), 0]):
                lex(bits, [(5, 4, [1, 2, 0], 1)], 'q', index=index, w=10, name='I')
        # every size in a range; a quicksort that falls back to heapsort
        for n in range(16, 100 if th else 48):
            for kind in 'qhs':
                p = ranks(n, n if n % 3 else 7, n)
                if n % 2:
                    arg(5, 4, kind, put(p, x=[n * 2 // 3]), par=True, w=n / 2, name='z')
                else:
                    lex(32 if n % 4 else 64, [(5, 4, put(p, x=[n * 2 // 3]), 1)], kind, par=True, w=n / 2, name='z')
                if kind != 's' or n % 4 == 0:
                    lex(64 if n % 4 else 32, [((7, 12)[n % 2], 8, put(p, x=[n // 3]), 1)], kind, w=n / 2, name='z')
            lex(32 if n % 5 else 64, [(18, (3, 9)[n % 2], put(ranks(n, n, n + 1), x=[n // 3]), 1)], 'qhs'[n % 3], par=n % 4 != 0, w=n, name='z')
        for k, n in enumerate((49, 64, 85, 90, 129, 171) + ((300, 257) if th else ())):
            for t in (5, 12, 3, 23, 18):
                for i, kind in enumerate('sq'):
                    p = put(ranks(n, 5, n + i), x=[n * 3 // 7])
                    if t in MANT:
                        p = put(p, nan=[n // 5, n // 2, n - 1])
                    if t in (18, 23, 3) or (k + i) % 2:
                        lex((32, 64)[(k + i) % 2], [(t, ES.get(t, 5), p, 1)], kind, w=n / 2, name='y')
                    else:
                        arg(t, ES[t], kind, p, w=n / 2, name='y')
        for k, n in enumerate((333, 385) if th else (333,)):
            for t in (5, 12, 18):
                for kind in 'sq':
                    lex((32, 64)[t % 2], [(t, ES.get(t, 5), put(ranks(n, 4, n), x=[n * 3 // 7]), 1)], kind, par=True, w=n / 2, name='y')
        for t in (5, 12, 4, 18):
            for n in (64, 96, 128) if th else (96,):
                p = killer(n)
                for x in (n // 4, n // 2 + 5, n - 4):
                    if t == 18 or x == n // 4:
                        lex(64 if x == n - 4 else 32, [(t, ES.get(t, 4), put(p, x=[x]), 1)], 'q', w=n, name='k')
                    else:
                        arg(t, ES[t], 'q', put(p, x=[x]), w=n, name='k')
        # parts that run in another order
        for k, (t, es) in enumerate([(5, 4), (12, 8), (2, 1), (11, 4), (3, 2), (23, 2), (7, 8), (18, 3), (19, 8)]):
            for i, perm in enumerate(PERMS):
                for kind in 'qhs' if th or t in (5, 18) else 'qhs'[(k + i) % 3]:
                    for n in ((17, 23, 30, 47) if th else ((17, 23, 40, 46)[(i + k) % 4],)):
                        p = put(ranks(n, n, n + i), x=[n * 3 // 5])
                        if t in (18, 19, 23) or i % 2 or t in (2, 3) and kind == 's':
                            J.append(('parts:%s:%s:%d#%d' % (tag(t, es), kind, n, len(J)), parts_job, (perm, lex_job, ((32, 64)[(i // 2 + k) % 2], [(t, es, p, 1)], kind, True, 4000)), n))
                        else:
                            J.append(('parts:%s:%s:%d#%d' % (tag(t, es), kind, n, len(J)), parts_job, (perm, arg_job, (t, es, kind, p, True, 4000)), n))
        for what in ('none', 'empty', 'noargs', 'swapped', 'object', 'complex', 'void', 'lengths', 'cuttype', 'cutstride', 'idxtype', 'idxother', 'idxstride'):
            J.append(('odd:%s' % what, odd_lex_job, (what,), 1))
        return J

    def bounds(self, ctx):
        return ('the types, kinds, patterns and sizes of P14 through argsort and lexsort32/64; lexsort of one to three keys, 0 to 4 elements all symbolic; cutoffs of up to 7 partitions (fixed, and symbolic ones for '
                'the acceptance test), start indexes fixed and symbolic; size limit for threads lowered from 65536 to 16')


CHECKS = {'P14': P14, 'P15': P15}
