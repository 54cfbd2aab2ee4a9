"""P18, P19: boolean and fancy getitem."""
from api import *
from engine import vec

# item kinds: (type, item size)
ITEMS = [(1, 1), (0, 1), (3, 2), (23, 2), (11, 4), (6, 4), (7, 8), (12, 8), (14, 8), (21, 8), (15, 16), (13, 16), (18, 7), (18, 3), (18, 9), (19, 12), (19, 20), (20, 5), (16, 32)]
NAN = {11: (8, 23), 12: (11, 52), 23: (5, 10)}


def tag(t, es):
    return DT[t] if t in DT else {18: 'S', 19: 'U', 20: 'V'}[t] + str(es)


def start(ctx):
    E = ctx.E
    E.pcs[:] = []
    E.problems[:] = []
    E.events[:] = []
    ctx.C.err = None


def call(ctx, st, *args):
    C = ctx.C
    return ctx.E.callp(st, C.methods['getitem'][0], [1, C.tuple(st, list(args))])


def outcome(ctx, rec, st, r, cand, must):
    """-> info of the result array, or None after reporting"""
    E, C = ctx.E, ctx.C
    rec.obligations += 1
    if type(r) is not int:
        raise Unsupported('symbolic result')
    if r == 0:
        if C.err is None:
            rec.cand(dict(cand, what='no error set', env=model(E)))
            return None
        if must:
            rec.cand(dict(cand, what='raises ' + str(C.err), env=model(E)))
            return None
        rec.discharged += 1
        return None
    if C.err is not None:
        rec.cand(dict(cand, what='result with an error set', env=model(E)))
        return None
    rec.discharged += 1
    return C.arrinfo(st, r)


def model(E):
    r, m = E.query(1, want=X.var('unused_', 8))
    return {k: v for k, v in (m or {}).items() if k != '@'}


def refs(ctx, st, objs):
    return [ctx.E.load(st, o, 8) for o in objs]


# ---------------------------------------------------------------- P18
def ranks(conds, width=16):
    """for a list of conditions: the number of true ones, as [(count, condition)] after each"""
    cnt = [(0, 1)]
    out = []
    for c in conds:
        out.append(cnt)
        nxt = {}
        for p, g in cnt:
            if not (type(c) is int and c == 0):
                nxt[p + 1] = X.bor(nxt.get(p + 1, 0), X.band(g, c))
            if not (type(c) is int and c == 1):
                nxt[p] = X.bor(nxt.get(p, 0), X.band(g, X.bnot(c)))
        cnt = sorted((p, g) for p, g in nxt.items() if not (type(g) is int and g == 0))
    return out, cnt


def fixedmask(fill, n, i):
    """value of a mask element that is not symbolic"""
    if type(fill) is dict:
        return 1 if i in fill['ones'] else 0
    return fill if type(fill) is int else fill[i % len(fill)]


def position(i, g):
    """values that tell their position"""
    return (i * 2654435761 + 12345) & ((1 << (8 * g)) - 1)


def bool_job(ctx, rec, key, vals, mask, symat, fill, concrete):
    E, C = ctx.E, ctx.C
    moff = elements(mask)
    n = len(moff)
    voff = elements(vals)
    cells = [0] * mask['nbytes']
    at = set(range(n) if symat is None else symat)
    conds = []
    for i, o in enumerate(moff):
        if i in at:
            v = X.var('m_%d' % o, 1)
            cells[o] = X.zext(v, 1, 8)
            conds.append(X.eq(v, 1, 1))
        else:
            cells[o] = fixedmask(fill, n, i)
            conds.append(cells[o])
    before, total = ranks(conds)
    es = vals['es']
    seen = 0
    for k, rank in total:
        st = E.forkstate(ctx.st, 1)
        cand = dict(key=key, vals=vals, mask=mask, sym=sorted(at), fill=fill, concrete=concrete, k=k)
        start(ctx)
        E.pcs[:] = [] if rank == 1 else [rank]
        if rank != 1 and not E.feasible(1):
            continue
        v, vb = make(ctx, st, vals, 'v', position if concrete else None)
        m, mb = make(ctx, st, mask, 'm', list(cells))
        vs, ms, rc = snapshot(E, st, vb), snapshot(E, st, mb), refs(ctx, st, [v, m])
        dead = None
        free = sum(1 for c in conds if type(c) is not int or c)
        with Shape(ctx, k, (free - k + 1) * es) as sh:
            try:
                r = call(ctx, st, v, m)
            except PathDead as e:
                dead = str(e)
        report(rec, E, cand)
        if dead:
            continue
        i = outcome(ctx, rec, st, r, cand, must=vals['must'])
        if i is None:
            continue
        seen += 1
        need(rec, E, 0 if i['descr'] == C.arrinfo(st, v)['descr'] and i['shape'] == [k] and (k < 2 or i['strides'][0] == es) else 1, cand, 'dtype or shape')
        if i['shape'] != [k]:
            continue
        # element q of the values goes to the position that counts the selected elements before it
        want = []
        for p in range(k):
            want.append(X.var('res_%d' % p, es * 8) if es in (1, 2, 4, 8) else X.concat([(X.var('res_%d' % (p * es + b), 8), 8) for b in range(es)]))
        for q in range(n):
            c = conds[q]
            if type(c) is int and c == 0:
                continue
            x = elem(E, st, vb, voff[q], es)
            for p, g in before[q]:
                if p < k:
                    # what was there before stays only where nothing is selected: never, as exactly k elements are
                    want[p] = X.ite(c, X.ite(g, x, want[p], es * 8), want[p], es * 8)
        bad = 0
        for p in range(k):
            y = elem(E, st, i['data'], p * es, es)
            bad = X.bor(bad, X.bnot(X.eq(y, want[p], es * 8)))
        need(rec, E, bad, cand, 'elements')
        need(rec, E, sh.past(st, i), cand, 'written past the end')
        need(rec, E, X.bor(unchanged(E, st, vb, vs), unchanged(E, st, mb, ms)), cand, 'inputs')
        need(rec, E, 0 if refs(ctx, st, [v, m]) == rc and E.load(st, r, 8) == 1 else 1, cand, 'references')
        if vals['t'] == 17:
            need(rec, E, 0 if k == 0 or ('PyArray_INCREF', r) in E.events else 1, cand, 'object references')
    rec.reach('a result was compared', seen > 0)


def need(rec, E, bad, cand, what):
    r = rec.oblige(E, bad, dict(cand, what=what), timeout=20000)
    return r


BOOL_BODY = r'''
def run(c, place):
    v, vd = make(c['vals'], place)
    m, md = make(c['mask'], place)
    want = np.array(v)[np.array(m)] if v.shape == m.shape else np.array(v).ravel()[np.array(m).ravel()]
    try:
        got = P.getitem(v, m)
    except ValueError as e:
        return None if not c['must'] else 'raised %s' % e
    t = same(got, want)
    for k, (p, d) in enumerate((vd, md)):
        if ctypes.string_at(p, len(d)) != d:
            t = t or 'input %d was changed' % k
    return t
main(run)
'''


def lay(vals, must=True):
    vals['must'] = must
    return vals


class P18(ApiCheck):
    """boolean getitem"""
    pid = 'P18'
    assumptions = ['mask bytes are 0 or 1', 'the mask and the values have the same number of elements',
                   'threads: the blocks of a parallel call are run by the calling thread; that every block runs exactly once for every schedule is P10-P12']

    def jobs(self, ctx):
        J = []
        th = ctx.tier == 'thorough'
        for x, (t, es) in enumerate(ITEMS):
            first = t in (1, 3, 11, 7, 18) and es != 9
            for vs, pad, ms, ns in ((1, 0, 1, (0, 1, 3, 7, 8, 9, 14)), (2, 0, 1, (9, 12)), (-1, 0, 1, (11,)), (1, 3, 1, (10,)), (1, 0, 2, (1, 9)), (3, 0, -1, (10,)), (-2, 1, -3, (9,))):
                for n in ns:
                    if not first and not th and n not in (9, 10):
                        continue
                    J.append(('%s:%d/%d/%d:%d' % (tag(t, es), vs, pad, ms, n), bool_job, (lay(arr(t, n, vs, es, pad)), arr(0, n, ms), None, 0, False), n * n / 9.0))
            # longer arrays: symbolic bytes at both ends and around the 8 and 32 element groups
            for n, fill, vs in ((45, [1, 0, 0, 1, 1], 1), (70, 0, 2), (37, 1, -1)):
                if not th and not first and (x + n) % 3:
                    continue
                at = sorted(set([0, 7, 8, 15, 31, 32, n - 4, n - 1]) & set(range(n)))
                J.append(('%s:long:%d' % (tag(t, es), n), bool_job, (lay(arr(t, n, vs, es)), arr(0, n), at, fill, False), 20))
        for t, es in ((7, 8), (18, 7), (3, 2), (11, 4), (1, 1), (17, 8)):
            for shape in ((3, 4), (2, 3, 2), ()):
                st = []
                s = es
                sm = []
                q = 1
                for d in reversed(shape):
                    st.insert(0, s)
                    sm.insert(0, q)
                    s *= d
                    q *= d
                J.append(('%s:nd%s' % (tag(t, es), 'x'.join(map(str, shape))), bool_job, (lay(arr(t, 0, es=es, shape=shape, strides=st)), arr(0, 0, shape=shape, strides=sm), None, 0, False), 12))
            # column order: either the right elements or an error
            J.append(('%s:F' % tag(t, es), bool_job, (lay(arr(t, 0, es=es, shape=(3, 3), strides=(es, 3 * es)), False), arr(0, 0, shape=(3, 3), strides=(1, 3)), None, 0, False), 12))
            J.append(('%s:FC' % tag(t, es), bool_job, (lay(arr(t, 0, es=es, shape=(3, 3), strides=(es, 3 * es)), False), arr(0, 0, shape=(3, 3), strides=(3, 1)), None, 0, False), 12))
            J.append(('%s:rows' % tag(t, es), bool_job, (lay(arr(t, 0, es=es, shape=(3, 3), strides=(6 * es, es)), False), arr(0, 0, shape=(3, 3), strides=(3, 1)), None, 0, False), 12))
        J.append(('i8:swapped', bool_job, (lay(arr(7, 9, byteorder='>')), arr(0, 9), None, 0, False), 10))
        J.append(('O:obj', bool_job, (lay(arr(17, 9)), arr(0, 9), None, 0, False), 10))
        # the vector counter: enough true bytes to fill its byte counters, around its 255 iterations
        for n, at in ((8160, [5, 8159]), (8192 + 33, [8161, 8180, 8192, 8193, 8224]), (16384, [16370])):
            if th or n < 9000:
                J.append(('count:%d' % n, bool_job, (lay(arr(1, n, 1)), arr(0, n), at, 1, True), 60))
        # threads: a few chunks of mostly unselected elements
        for t, es, n, vs, ms in ((7, 8, 65536 + 40, 1, 1), (18, 7, 81920 + 17, 2, 1), (3, 2, 65537, -1, 2), (11, 4, 98304, 1, 1), (1, 1, 16384 * 4 + 1, 2, 1))[:5 if th else 3]:
            J.append(('%s:thr:%d' % (tag(t, es), n), bool_job, (lay(arr(t, n, vs, es)), arr(0, n, ms), [16391, 32768, n - 1], dict(ones=[0, 7, 16383, 16384, 49151, 65535]), True), 120))
        return J

    def replay(self, ctx, c):
        env = c.get('env') or {}
        m = c['mask']
        moff = elements(m)
        fill = c['fill']
        b = bytearray(m['nbytes'])
        at = set(c['sym'])
        cs = []
        for var in ((0, 1) if env else (1, 0)):
            for i, o in enumerate(moff):
                if i in at:
                    b[o] = env.get('m_%d' % o, 0) & 1 if var == 0 else int(hashlib.md5(b'%d' % i).digest()[0] & 3 != 0)
                else:
                    b[o] = fixedmask(fill, len(moff), i)
            v = c['vals']
            if v['t'] == 17:
                continue
            vals = hexbuf(v, 'v', env if var == 0 else {})
            cs.append(dict(vals=jarr(v, vals), mask=jarr(m, bytes(b).hex()), must=v['must']))
        return replay(self.pid, self.group(c), BOOL_BODY, cs)

    def group(self, c):
        return c['key'].rsplit(':', 1)[0] if ':' in c['key'] else c['key']

    def bounds(self, ctx):
        return ('%d item kinds (1 to 32 bytes, odd sizes); values and mask contiguous, strided, reversed, padded, multi-dimensional; 0 to 14 elements with every mask, up to 98304 elements (several chunks) '
                'with 3 to 8 free mask elements among fixed ones; every value' % len(ITEMS))


# ---------------------------------------------------------------- P19
INDEX = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]


def invalid(t, es, order):
    """the value for positions out of range when none is given: (value, is a nan of that format)"""
    w = es * 8
    k = KIND[t]
    v = 0
    if k == 'i' or k in 'Mm':
        v = 1 << (w - 1)
    elif k == 'u':
        v = (1 << w) - 1
    elif k in 'fc':
        return 'nan'
    if order == '>':
        v = int.from_bytes(v.to_bytes(es, 'little'), 'big')
    return v


def isinvalid(t, es, order, x):
    v = invalid(t, es, order)
    if v != 'nan':
        return X.eq(x, v, es * 8)

    def nan(lo, w):
        y = X.extract(x, lo + w - 1, lo)
        if order == '>':
            y = X.concat([(X.extract(y, 8 * (w // 8 - 1 - i) + 7, 8 * (w // 8 - 1 - i)), 8) for i in range(w // 8)])
        if w == 128:     # x87 extended
            return X.band(X.eq(X.extract(y, 78, 64), 0x7fff, 15), X.bnot(X.eq(X.extract(y, 62, 0), 0, 63)))
        e, m = {16: (5, 10), 32: (8, 23), 64: (11, 52)}[w]
        return X.band(X.eq(X.extract(y, m + e - 1, m), (1 << e) - 1, e), X.bnot(X.eq(X.extract(y, m - 1, 0), 0, m)))
    if KIND[t] == 'c':
        h = es * 4
        return X.band(nan(0, h), nan(h, h))
    return nan(0, es * 8)


def fancy_job(ctx, rec, key, vals, index, default, symat, concrete):
    """default: None, ('int', ) or ('float', ) symbolic, ('other',) an object NumPy converts"""
    E, C = ctx.E, ctx.C
    n = len(elements(index))
    ioff = elements(index)
    voff = elements(vals)
    nv = len(voff)
    es = vals['es']
    iw = index['es'] * 8
    signed = KIND[index['t']] == 'i'
    st = E.forkstate(ctx.st, 1)
    cand = dict(key=key, vals=vals, index=index, sym=symat, default=default, concrete=concrete)
    start(ctx)
    v, vb = make(ctx, st, vals, 'v', position if concrete else None)
    at = set(range(n) if symat is None else symat)
    cells = None
    if symat is not None:
        g = index['es']
        byoff = {o: i for i, o in enumerate(ioff)}
        cells = lambda i, g_: X.var('i_%d' % i, 8 * g_) if byoff.get(i * g_, 0) in at else (i * 7919) % max(nv, 1) if i % 5 else ((1 << (8 * g_)) - 3 if signed else 3 % max(nv, 1))
    ix, ib = make(ctx, st, index, 'i', cells)
    vs, ms, rc = snapshot(E, st, vb), snapshot(E, st, ib), refs(ctx, st, [v, ix])
    args = [v, ix]
    dv = None
    set_ = []
    h0 = C.npfunc_handler

    def h(E_, s, t, nm, a):
        if nm == 'setitem':
            # (item, data, array)
            i = C.arrinfo(s, a[2])
            set_.append((a[0], i['descr']))
            for b in range(i['es']):
                E.store(s, a[1] + b, X.var('def_%d' % b, 8), 1)
            return 0
        if nm == 'copyswap':
            # (dst, src, swap, array)
            k = C.arrinfo(s, a[3])['es']
            bs = [E.load(s, (a[1] or a[0]) + b, 1) for b in range(k)]
            if a[2] and KIND[t] not in 'SUV':
                bs = bs[::-1] if KIND[t] != 'c' else bs[:k // 2][::-1] + bs[k // 2:][::-1]
            for b in range(k):
                E.store(s, a[0] + b, bs[b], 1)
            return 0
        raise Unsupported('numpy function %s' % nm)
    C.npfunc_handler = h
    try:
        if default:
            if default[0] == 'int':
                dv = X.var('defl', 64)
                d = C.long(st, dv)
            elif default[0] == 'float':
                dv = X.var('defl', 64)
                d = C.float(st, dv)
            elif default[0] == 'bigint':
                d = C.long(st, X.var('defl', 64))
                C.objs[d]['big'] = 1
            else:
                d = C.str(st, 'x')
            args.append(d)
        dead = None
        try:
            r = call(ctx, st, *args)
        except PathDead as e:
            dead = str(e)
    finally:
        C.npfunc_handler = h0
    report(rec, E, cand)
    if dead:
        return
    i = outcome(ctx, rec, st, r, cand, must=vals['must'])
    if i is None:
        return
    need(rec, E, 0 if i['descr'] == C.arrinfo(st, v)['descr'] and i['shape'] == [n] and (n < 2 or i['strides'][0] == es) else 1, cand, 'dtype or shape')
    if i['shape'] != [n]:
        return
    given = None
    if default:
        if set_:
            need(rec, E, 0 if set_[-1] == (d, i['descr']) else 1, cand, 'default converted')
            given = X.concat([(X.var('def_%d' % b, 8), 8) for b in range(es)])
        else:
            given = converted(vals['t'], dv, default[0])
            if given is None:
                need(rec, E, 1, cand, 'default')
                return
    w = 66
    for q in range(n):
        x = elem(E, st, ib, ioff[q], index['es'])
        xi = X.sext(x, iw, w) if signed else X.zext(x, iw, w)
        y = elem(E, st, i['data'], q * es, es)
        hit = 0
        ok = 1
        for p in range(nv):
            c = X.eq(xi, p, w)
            if signed:
                c = X.bor(c, X.eq(xi, (p - nv) & ((1 << w) - 1), w))
            if type(c) is int and not c:
                continue
            hit = X.bor(hit, c)
            ok = X.band(ok, X.bor(X.bnot(c), X.eq(y, elem(E, st, vb, voff[p], es), es * 8)))
        if given == 'any':
            ok2 = 1
        elif given is not None:
            ok2 = X.eq(y, given, es * 8)
        else:
            ok2 = isinvalid(vals['t'], es, vals['order'], y)
        ok = X.band(ok, X.bor(hit, ok2))
        need(rec, E, X.bnot(ok), cand, 'element')
    need(rec, E, X.bor(unchanged(E, st, vb, vs), unchanged(E, st, ib, ms)), cand, 'inputs')
    need(rec, E, 0 if refs(ctx, st, [v, ix]) == rc and E.load(st, r, 8) == 1 else 1, cand, 'references')
    rec.reach('a result was compared')


def converted(t, v, kind):
    """the default as stored in the values' type; None: not this way, 'any': out of scope"""
    w = ELSIZE[t] * 8
    k = KIND[t]
    if kind == 'int':
        if k == 'b':
            return X.ite(X.eq(v, 0, 64), 0, 1, 8)
        if k in 'iu':
            return X.extract(v, w - 1, 0)
        if t in (11, 12):
            return vec.fcast('sitofp', v, 64, w)
    elif kind == 'float':
        if k == 'b':
            return X.ite(X.eq(X.extract(v, 62, 0), 0, 63), 0, 1, 8)
        if t == 12:
            return v
        if t == 11:
            return vec.fcast('fptrunc', v, 64, 32)
        if k in 'iu':
            return 'any'
    return None


FANCY_BODY = r"""
INV = {'f': float('nan'), 'c': complex(float('nan'), float('nan'))}


def run(c, place):
    v, vd = make(c['vals'], place)
    x, xd = make(c['index'], place)
    fv = np.array(v).ravel()
    n = len(fv)
    k = v.dtype.kind
    dt = v.dtype
    args = [v, x]
    if c['default'] is not None:
        kind, bits = c['default']
        d = int(np.uint64(bits).astype('i8')) if kind == 'int' else 2 ** 64 + bits % 97 if kind == 'bigint' else np.uint64(bits).view('f8').item() if kind == 'float' else 'x' if k == 'U' else b'x' if k in 'SV' else 1j if k == 'c' else 1
        args.append(d)
        want1 = np.zeros(1, dt)
        try:
            if kind == 'int' and k in 'iub':
                want1 = np.array([d]).astype(dt)
            elif kind == 'float' and k in 'iu':
                if not (abs(d) < 2.0 ** 31 and (k == 'i' or d >= 0)):
                    return None
                want1 = np.array([d]).astype('i8').astype(dt)
            else:
                want1[0] = d
        except Exception:
            want1 = None
    else:
        want1 = np.zeros(1, dt)
        if k in 'fc':
            want1[0] = INV[k]
        elif k == 'i':
            want1[0] = np.iinfo(dt).min
        elif k == 'u':
            want1[0] = np.iinfo(dt).max
        elif k in 'Mm':
            want1[0] = 'NaT'
    try:
        got = P.getitem(*args)
    except Exception as e:
        return None if not c['must'] or want1 is None or c['default'] is not None and c['default'][0] == 'other' else 'raised %s' % e
    if want1 is None:
        return 'accepted a default that does not convert'
    if got.shape != (x.size,) or got.dtype != dt:
        return 'result %s %s' % (got.dtype, got.shape)
    for q, i in enumerate(np.array(x).ravel()):
        i = int(i)
        e = got[q:q + 1]
        if -n <= i < n:
            if e.tobytes() != fv[[i]].tobytes():
                return 'element %d (index %d) is %s instead of %s' % (q, i, e.tobytes().hex(), fv[[i]].tobytes().hex())
        elif c['default'] is None and k in 'fc':
            if not np.isnan(e[0]) or k == 'c' and not (np.isnan(e[0].real) and np.isnan(e[0].imag)):
                return 'element %d out of range is %s' % (q, e)
        elif e.tobytes() != want1.tobytes() and not (k == 'f' and np.isnan(e[0]) and np.isnan(want1[0])) and dt != np.longdouble:
            return 'element %d out of range is %s instead of %s' % (q, e.tobytes().hex(), want1.tobytes().hex())
    for k, (p, d) in enumerate((vd, xd)):
        if ctypes.string_at(p, len(d)) != d:
            return 'input %d was changed' % k
    return None
main(run)
"""


class P19(ApiCheck):
    """fancy getitem"""
    pid = 'P19'
    assumptions = ['the index array is native-endian (others are refused)', 'conversion of a default value of another type is NumPy\'s setitem',
                   'threads: the blocks of a parallel call are run by the calling thread; that every block runs exactly once for every schedule is P10-P12']

    def jobs(self, ctx):
        J = []
        th = ctx.tier == 'thorough'
        k = 0
        for x, (t, es) in enumerate(ITEMS):
            for it in INDEX:
                for vs, pad, xs, nv, n in ((1, 0, 1, 5, 3), (2, 0, 1, 4, 2), (-1, 0, -2, 3, 2), (1, 0, 2, 6, 2), (1, 3, 1, 3, 2), (1, 0, 1, 0, 2), (1, 0, 1, 4, 0)):
                    k += 1
                    if not th and it in (9, 10) and t not in (7, 18):
                        continue
                    if not th and (vs, pad, xs, nv, n) != (1, 0, 1, 5, 3) and (k + x) % 2:
                        continue
                    J.append(('%s[%s]:%d/%d/%d:%d,%d' % (tag(t, es), tag(it, 0), vs, pad, xs, nv, n), fancy_job, (lay(arr(t, nv, vs, es, pad)), arr(it, n, xs), None, None, False), es / 8.0 + 1))
        # more values than the index type can count
        for it, nv in ((1, 130), (2, 260), (1, 128), (2, 256)):
            for t, es in ((1, 1), (7, 8), (18, 3)):
                J.append(('%s[%s]:big:%d' % (tag(t, es), tag(it, 0), nv), fancy_job, (lay(arr(t, nv, 1, es)), arr(it, 1, 1), None, None, True), 20))
        for x, (t, es) in enumerate(ITEMS):
            for d in ('int', 'bigint', 'float', 'other'):
                if converted(t, X.var('q', 64), d) is None and d not in ('other', 'bigint') and t < 17:
                    continue
                J.append(('%s:default-%s' % (tag(t, es), d), fancy_job, (lay(arr(t, 3, 1, es)), arr((5, 8, 3, 2)[x % 4], 2), [d], None, False), 4))
        for t in (3, 7, 12, 15, 23, 14):
            J.append(('%s:swapped' % tag(t, 0), fancy_job, (lay(arr(t, 3, byteorder='>')), arr(7, 2), None, None, False), 4))
            J.append(('%s:swapped-default' % tag(t, 0), fancy_job, (lay(arr(t, 3, byteorder='>')), arr(7, 2), ['int'], None, False), 4))
        for t, es in ((7, 8), (18, 7), (3, 2), (1, 1)):
            J.append(('%s:nd' % tag(t, es), fancy_job, (lay(arr(t, 0, es=es, shape=(2, 3), strides=(3 * es, es))), arr(7, 0, shape=(2, 2), strides=(16, 8)), None, None, False), 4))
            J.append(('%s:0d' % tag(t, es), fancy_job, (lay(arr(t, 0, es=es, shape=(), strides=())), arr(7, 0, shape=(), strides=()), None, None, False), 4))
            for nm, vsh, vst, xsh, xst in (('F', (2, 3), (es, 2 * es), (2,), (8,)), ('rows', (2, 3), (6 * es, es), (2,), (8,)), ('ov', (3, 3), (es, es), (2,), (8,)),
                                           ('xF', (5,), (es,), (2, 2), (8, 16)), ('xrows', (5,), (es,), (2, 2), (32, 8)), ('xov', (5,), (es,), (2, 2), (8, 8))):
                J.append(('%s:%s' % (tag(t, es), nm), fancy_job, (lay(arr(t, 0, es=es, shape=vsh, strides=vst), False), arr(7, 0, shape=xsh, strides=xst), None, None, False), 4))
        J.append(('O:obj', fancy_job, (lay(arr(17, 3), False), arr(7, 2), None, None, False), 4))
        for t, es, it, n, vs, xs in ((7, 8, 7, 65536 + 40, 2, 1), (18, 7, 6, 65537, 1, 2), (1, 1, 2, 81920 + 3, -3, 1), (11, 4, 5, 65536 * 2, 1, 1), (15, 16, 8, 65537, 1, 1))[:5 if th else 3]:
            J.append(('%s:thr:%d' % (tag(t, es), n), fancy_job, (lay(arr(t, 40, vs, es)), arr(it, n, xs), None, [0, 16383, 16384, 49152, n - 1], True), 100))
        return J

    def replay(self, ctx, c):
        env = c.get('env') or {}
        v, x = c['vals'], c['index']
        if v['t'] == 17:
            return None, False, 'objects are not replayed'
        cs = []
        g = x['es']
        nv = len(elements(v))
        for var in range(3):
            vals = hexbuf(v, 'v', env)
            b = b''
            for i in range(x['nbytes'] // g):
                val = env.get('i_%d' % i)
                if val is None or var:
                    val = int(hashlib.md5(b'%d/%d' % (i, var)).digest()[0]) % (2 * nv + 3) - (nv + 1 if KIND[x['t']] == 'i' else 0)
                    if var == 2 and i % 3 == 0:
                        val = -1 - i
                b += (val & ((1 << (8 * g)) - 1)).to_bytes(g, 'little')
            d = None
            if c['default']:
                d = [c['default'][0], env.get('defl', 7)]
            cs.append(dict(vals=jarr(v, vals), index=jarr(x, b.hex()), default=d, must=v['must']))
        return replay(self.pid, self.group(c), FANCY_BODY, cs)

    def group(self, c):
        return c['key'].rsplit(':', 1)[0] if c['key'].count(':') > 1 else c['key']

    def bounds(self, ctx):
        return ('%d item kinds (1 to 32 bytes, odd sizes), the 10 integer index types, values and index contiguous, strided, reversed, padded, multi-dimensional; up to 6 values (260 for 8 bit indexes) and '
                '4 indexes, each index any value of its type; up to 131072 indexes with 5 free ones in several chunks; default missing, any int, any float, or another object' % len(ITEMS))


CHECKS = {c.pid: c for c in (P18, P19)}
