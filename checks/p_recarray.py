"""P20: recarray_to_colmajor."""
import subprocess
from api import *
from engine import build
from p_getitem import start, refs, need, model

DTYPES = [
    ("[('x', '<f4'), ('y', '<i2'), ('z', 'i8'), ('s', 'S20')]", 3), ("[('a', 'i1'), ('b', 'f8'), ('c', '?')]", 9), ("[('a', '>i4'), ('b', 'M8[ns]'), ('c', 'U3')]", 5),
    ("{'names': ['p', 'q'], 'formats': ['i4', 'f8'], 'offsets': [6, 1], 'itemsize': 17}", 11), ("{'names': ['p', 'q'], 'formats': ['i4', 'i2'], 'offsets': [0, 2], 'itemsize': 4}", 4),
    ("[('x', 'c16'), ('y', 'f2'), ('w', 'g')]", 2), ("[('only', 'u1')]", 0), ("[(('title', 'n'), 'i4'), ('m', 'i8')]", 3),
]

WRAP = r'''
import json, sys, types
import numpy as np
calls = []
m = types.ModuleType('pnumpy._pnumpy')
m.recarray_to_colmajor = lambda *a: calls.append(a)
p = types.ModuleType('pnumpy')
p.__path__ = []
p._pnumpy = m
sys.modules['pnumpy'] = p
sys.modules['pnumpy._pnumpy'] = m
g = {'__name__': 'pnumpy.recarray'}
out = []
try:
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), g)
    f = g['recarray_to_colmajor']
except Exception as e:
    f = None
    out = None
for spec, n in json.loads(sys.argv[2]) if f else []:
    del calls[:]
    dt = np.dtype(eval(spec))
    x = np.zeros(n, dt)
    r = dict(spec=spec, n=n, size=dt.itemsize)
    try:
        d = f(x)
        r['calls'] = len(calls)
        r['names'] = set(d) >= set(dt.names) and all(d[k].shape == (n,) and d[k].dtype == dt[k] for k in dt.names)
        if calls:
            it, off, cols = calls[0]
            r['item'] = it is x
            r['off'] = [int(o) for o in off]
            r['offtype'] = str(off.dtype)
            r['cols'] = [(c.dtype.itemsize, c.shape == (n,) and c.flags.c_contiguous) for c in cols]
            # the column of each name gets the offset of that name
            r['match'] = all(any(c is d[k] and int(o) == dt.fields[k][1] for c, o in zip(cols, off)) for k in dt.names)
    except Exception as e:
        r['error'] = '%s: %s' % (type(e).__name__, e)
    out.append(r)
print(json.dumps(out))
'''


def plan():
    """what the Python wrapper of the current tree asks of the C function, for some record types"""
    p = os.path.join(build.REPO, 'src', 'pnumpy', 'recarray.py')
    r = subprocess.run([build.NUMPY_PY, '-c', WRAP, p, json.dumps(DTYPES)], capture_output=True, text=True, timeout=120, cwd='/')
    try:
        return json.loads(r.stdout)
    except ValueError:
        return None


def col_type(es):
    return {1: 1, 2: 3, 4: 5, 8: 7}.get(es, 18)


def conv_job(ctx, rec, key, R, n, fields, align, free, must, offt, symoff):
    """records of R bytes; fields: [(offset, size, rows or None)]; free: None all bytes, or the rows with symbolic bytes"""
    E, C = ctx.E, ctx.C
    cand = dict(key=key, R=R, n=n, fields=fields, align=align, must=must, offt=offt, symoff=symoff, free=free)
    rspec = arr(20, n, 1, R, align=align)
    cols = [arr(col_type(es), n if k is None else k, 1, es) for _, es, k in fields]
    start(ctx)
    base = E.forkstate(ctx.st, 1)
    g = rspec['es'] if rspec['es'] in (1, 2, 4, 8) else 1
    if free is None:
        cells = None
    else:
        cells = lambda i, g_: X.var('r_%d' % i, 8 * g_) if i * g_ // R in free else (i * 0x9e3779b97f4a7c15 >> 20) & ((1 << 8 * g_) - 1)
    rec_, rb = make(ctx, base, rspec, 'r', cells)
    objs, bufs = [], []
    for k, c in enumerate(cols):
        o, b = make(ctx, base, c, 'c%d' % k, None if free is None else lambda i, g_: 0xa5a5a5a5a5a5a5a5 & ((1 << 8 * g_) - 1))
        objs.append(o)
        bufs.append(b)
    nf = len(fields)
    oo, ob = make(ctx, base, arr(offt, nf), 'off', lambda i, g_: X.var('off_%d' % i, 64) if symoff else fields[i][0] & ((1 << 8 * g_) - 1))
    ao, ab = make(ctx, base, arr(17, nf), 'ptr', lambda i, g_: objs[i])
    snaps = [(b, snapshot(E, base, b)) for b in (rb, ob, ab)]
    rc = refs(ctx, base, [rec_, oo, ao] + objs)

    def fn(st):
        C.err = None
        return E.callp(st, C.methods['recarray_to_colmajor'][0], [1, C.tuple(st, [rec_, oo, ao])])

    def done(st, r, dead):
        report(rec, E, cand)
        if dead:
            if 'cut' in str(dead):
                raise Unsupported(str(dead))
            return
        if type(r) is not int:
            raise Unsupported('symbolic result')
        need(rec, E, 0 if refs(ctx, st, [rec_, oo, ao] + objs) == rc else 1, cand, 'references')
        for b, s in snaps:
            need(rec, E, unchanged(E, st, b, s), cand, 'inputs')
        if r == 0:
            need(rec, E, 1 if must and not symoff or C.err is None else 0, cand, 'raises %s' % C.err)
            if symoff:
                # refused: then some column really lies outside the record
                inside = 1
                for i, (_, es, k) in enumerate(fields):
                    v = X.var('off_%d' % i, 64)
                    inside = X.band(inside, X.ule(v, R - es, 64) if R >= es else 0)
                if must:
                    need(rec, E, inside, cand, 'refused')
            rec.reach('refused')
            return
        need(rec, E, 0 if r == C.none() and C.err is None else 1, cand, 'result')
        for k, (off, es, m) in enumerate(fields):
            if (n if m is None else m) != n:
                continue
            bad = 0
            for i in range(n):
                y = elem(E, st, bufs[k], cols[k]['off'] + i * es, es)
                if symoff:
                    x = None
                    v = X.var('off_%d' % k, 64)
                    for p in range(R - es + 1):
                        z = elem1(E, st, rb, rspec['off'] + i * R + p, es)
                        x = z if x is None else X.ite(X.eq(v, p, 64), z, x, es * 8)
                else:
                    x = elem1(E, st, rb, rspec['off'] + i * R + off, es)
                bad = X.bor(bad, X.bnot(X.eq(x, y, es * 8)))
            need(rec, E, bad, cand, 'column %d' % k)
        rec.reach('columns compared')

    if not symoff:
        dead = r = None
        st = base
        try:
            r = fn(st)
        except PathDead as e:
            dead = e
        done(st, r, dead)
        return
    for st, r, dead in PathExplorer(E, 200, True).paths(base, fn):
        done(st, r, dead)


def elem1(E, st, buf, off, es):
    return X.concat([(E.load(st, buf + off + b, 1), 8) for b in range(es)]) if es != 1 else E.load(st, buf + off, 1)


def wrap_job(ctx, rec, key, r):
    """the wrapper's own part: every name gets a column of its dtype and length, filled from its offset"""
    bad = r.get('error') or (None if r.get('names') else 'the result lacks a field or has another dtype or length')
    if not bad and r['calls']:
        bad = None if r['calls'] == 1 and r['item'] and r['offtype'] == 'int64' and r['match'] and all(c[1] for c in r['cols']) else 'the columns are not filled from the offsets of their fields'
    rec.oblige(ctx.E, 1 if bad else 0, dict(key=key, wrapper=r['spec'], n=max(r['n'], 3), what=bad))


BODY = r'''
import pnumpy as pn


def run(c, place):
    if 'wrapper' in c:
        dt = np.dtype(eval(c['wrapper']))
        x = np.frombuffer(np.random.default_rng(1).integers(0, 2, c['n'] * dt.itemsize).astype('u1').tobytes(), dt)
        d = pn.recarray_to_colmajor(x)
        for k in dt.names:
            if d[k].dtype != dt[k] or d[k].shape != x.shape or d[k].tobytes() != np.ascontiguousarray(x[k]).tobytes():
                return 'field %s differs' % k
        return None
    r, rd = make(c['rec'], place)
    cols, ds = [], []
    for k in c['cols']:
        a, d = make(k, place)
        cols.append(a)
        ds.append(d)
    o = np.empty(len(cols) + 1, object)
    for i, a in enumerate(cols):
        o[i] = a
    off = np.array([np.uint64(x).astype('i8') for x in c['off']], 'i8').astype(c['offt'])
    ok = all(0 <= f and f + a.itemsize <= c['R'] for f, a in zip(off.tolist(), cols))
    try:
        P.recarray_to_colmajor(r, off, o[:len(cols)])
    except Exception as e:
        return 'raised %s' % e if ok and c['must'] else None
    if ctypes.string_at(rd[0], len(rd[1])) != rd[1]:
        return 'the records were changed'
    raw = rd[1][c['rec']['off']:]
    for f, a in zip(off.tolist(), cols):
        if len(a) != c['n']:
            continue
        if not ok:
            return 'accepted a column outside the record'
        es = a.itemsize
        want = b''.join(raw[i * c['R'] + f:i * c['R'] + f + es] for i in range(c['n']))
        if a.tobytes() != want:
            return 'column at offset %d of %d bytes differs' % (f, es)
    return None
main(run)
'''


class P20(ApiCheck):
    """recarray_to_colmajor"""
    pid = 'P20'
    assumptions = ['the Python wrapper itself is executed on record types, not encoded; what it passes on is what is checked symbolically',
                   'threads: the parts of a parallel call are run by the calling thread; that each runs exactly once for every schedule is P11', 'columns do not overlap the records']

    def setup(self, ctx):
        self.plan = plan()

    def jobs(self, ctx):
        J = []
        th = ctx.tier == 'thorough'
        # every field size alone, at its place in records of several sizes
        for es in (1, 2, 4, 8, 3, 7, 9, 16, 20, 33):
            for R, off in ((es, 0), (es + 1, 1), (es + 3, 2), (es + 8, 8), (2 * es + 5, es)):
                for n in (0, 1, 3, 4, 5, 8, 9, 13, 17):
                    if not th and (n + R + off) % 3 and (R, off) != (es, 0) and n not in (9, 5):
                        continue
                    J.append(('f%d:%d@%d:%d' % (es, R, off, n), conv_job, (R, n, [(off, es, None)], (R + n) % 8, None, True, 7, False), n * es / 16.0))
        # several fields, overlapping and out of order
        for R, fs in ((15, [(0, 4), (4, 2), (6, 8), (14, 1)]), (12, [(8, 4), (0, 8)]), (9, [(1, 8), (0, 4), (5, 4), (2, 3)]), (40, [(0, 20), (20, 8), (28, 4), (32, 2), (34, 1), (35, 5)])):
            for n in (1, 6, 9, 12):
                J.append(('m%d:%d:%d' % (R, len(fs), n), conv_job, (R, n, [(o, e, None) for o, e in fs], n % 8, None, True, 7, False), n))
        # records so large that the rows are converted in groups
        for R, n in ((1000, 40), (3000, 12), (4096, 9), (8192, 5), (20000, 3), (1200, 27)):
            for es in (4, 8, 2, 1, 5):
                J.append(('L%d:%d:%d' % (es, R, n), conv_job, (R, n, [(R - es, es, None), (0, es, None), (R // 2, 8, None)], 3, sorted(set([0, 3, 4, 7, 8, n - 1]) & set(range(n))), True, 7, False), 8))
        # threads: several parts
        for es, R, n in ((4, 7, 16385), (8, 9, 20001), (1, 3, 32768), (5, 6, 16384), (2, 2, 49153))[:5 if th else 4]:
            J.append(('T%d:%d:%d' % (es, R, n), conv_job, (R, n, [(R - es, es, None), (0, 1, None)], 0, [0, 7, 8, 16383, 16384, n - 2, n - 1], True, 7, False), 100))
        # any offset at all
        for es in (1, 2, 4, 8, 3):
            for R in (12, 9):
                for n in (1, 5):
                    J.append(('any%d:%d:%d' % (es, R, n), conv_job, (R, n, [(None, es, None)], 0, None, True, 7, True), 20))
        J.append(('any2', conv_job, (12, 2, [(None, 4, None), (None, 2, None)], 0, None, True, 7, True), 40))
        J.append(('anybig', conv_job, (6, 2, [(None, 8, None)], 0, None, True, 7, True), 10))
        # what does not fit: refuse, or at least stay inside the arrays
        for i, (R, n, fs, offt) in enumerate(((8, 5, [(0, 4, 4)], 7), (8, 5, [(0, 4, None), (4, 4, 0)], 7), (8, 5, [(0, 8, 3)], 7), (8, 3, [(0, 16, None)], 7), (8, 3, [(1, 8, None)], 7), (8, 3, [(-1, 1, None)], 7),
                                              (8, 3, [(4, 4, None), (0, 4, None)], 5), (8, 3, [(4, 1, None)], 1))):
            J.append(('bad%d' % i, conv_job, (R, n, fs, 0, None, False, offt, False), 5))
        if self.plan is None:
            J.append(('wrapper', wrap_job, (dict(spec=DTYPES[0][0], n=3, error='the wrapper cannot be loaded'),), 1))
        for k, r in enumerate(self.plan or []):
            J.append(('wrapper%d' % k, wrap_job, (r,), 1))
            if r.get('calls'):
                J.append(('wrapped%d' % k, conv_job, (r['size'], r['n'], [(o, c[0], None) for o, c in zip(r['off'], r['cols'])], 0, None, True, 7, False), 8))
        return J

    def replay(self, ctx, c):
        if 'wrapper' in c:
            return replay(self.pid, c['key'], BODY, [dict(wrapper=c['wrapper'], n=c['n'])], sanitize=False)
        env = c.get('env') or {}
        R, n = c['R'], c['n']
        rs = arr(20, n, 1, R, align=c['align'])
        cols = [arr(col_type(es), n if k is None else k, 1, es) for _, es, k in c['fields']]
        off = [env.get('off_%d' % i, 0) if c['symoff'] else f[0] & M64 for i, f in enumerate(c['fields'])]
        cs = [dict(rec=jarr(rs, hexbuf(rs, 'r', e)), cols=[jarr(k, hexbuf(k, 'c%d' % i, {})) for i, k in enumerate(cols)], off=off, offt=DT[c['offt']], R=R, n=n, must=c['must']) for e in (env, {})]
        return replay(self.pid, self.group(c), BODY, cs)

    def group(self, c):
        return c['key'].split(':')[0]

    def bounds(self, ctx):
        return ('records of 1 to 20000 bytes with 1 to 6 fields of 1 to 33 bytes at any place, overlapping too; 0 to 17 rows with every byte symbolic, up to 49153 rows with some symbolic rows; '
                'offsets symbolic (64 bit) for up to two fields; columns of wrong length and size; %d record types through the Python wrapper' % len(DTYPES))


CHECKS = {'P20': P20}
