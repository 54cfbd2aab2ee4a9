"""P01-P06: the inner loops installed into NumPy's ufuncs."""
import random
import struct
from common import *
import loops
import real
import specs
from engine import ufeval
from engine.capi import ELSIZE, KIND
from loops import BINARY, COMPARE, TN

APPROX = ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'log', 'log2', 'log10',
          'log1p', 'exp', 'exp2', 'expm1', 'cbrt', 'power')


def special(t, w):
    if KIND[t] == 'f':
        if w == 32:
            return [0, 1 << 31, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc00000, 1, 0x80000001, 0x7f7fffff, 0x3dcccccd,
                    0x41200000, 0x3f000000, 0xbfc00000, 0x4b000001, 0xc2fe0001]
        return [struct.unpack('<Q', struct.pack('<d', x))[0] for x in (0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), 0.1, 10.0, 0.5, -1.5, 2.5, -2.5,
                                                                    1e308, 4503599627370497.5, -127.5)] + [0x7ff8 << 48, 0xfff8 << 48, 0x7ff0000000000001, 1]
    if t == 0:
        return [0, 1]
    return [0, 1, 2, 3, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, w - 1, w, w + 1, (1 << w) - 2, 0x55 & ((1 << w) - 1)]


def filler(seed):
    rnd = random.Random(seed)

    def f(t, w, i):
        s = special(t, w)
        if rnd.random() < 0.6 or t == 0:
            return rnd.choice(s)
        if rnd.random() < 0.5 and KIND[t] == 'f':
            x = rnd.choice([rnd.uniform(-3, 3), rnd.uniform(-1e4, 1e4), float(rnd.randint(-9, 9))])
            return struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', x))[0]
        return rnd.getrandbits(w)
    return f


def geometry(cand):
    """buffers of a loop / reduce case: [(nbytes, granule, type, byte offset)], ptrs, steps, n"""
    sig = cand['sig']
    es = [ELSIZE[t] for t in sig]
    n = cand['n']
    if cand['kind'] == 'reduce':
        e = es[1]
        step = cand['step']
        size = max(abs(step) * (n - 1) + 1, 1) * e if n else e
        o = abs(step) * (n - 1) * e if step < 0 and n else 0
        return [(size, e, sig[1], cand['off'], 'b'), (es[0], es[0], sig[0], 0, 'o')], [(1, 0), (0, o), (1, 0)], [0, step * e, 0], n
    lay, ops, boff = cand['lay']
    ext, typ = {}, {}
    for k, (b, off, step) in enumerate(ops):
        lo = (off + (step * (n - 1) if step < 0 and n > 0 else 0)) * es[k]
        hi = (off + (step * (n - 1) if step > 0 and n > 0 else 0) + 1) * es[k]
        if b in ext:
            ext[b] = (min(ext[b][0], lo), max(ext[b][1], hi))
        else:
            ext[b] = (lo, hi)
            typ[b] = k
    ids = sorted(ext)
    bufs = []
    for b in ids:
        size = ext[b][1] - ext[b][0]
        g = es[typ[b]]
        while size % g:
            g //= 2
        bufs.append((size, g, sig[typ[b]], boff.get(b, 0), 'abc'[b]))
    ptrs = [(ids.index(b), off * es[k] - ext[b][0]) for k, (b, off, step) in enumerate(ops)]
    return bufs, ptrs, [s * es[k] for k, (_, _, s) in enumerate(ops)], n


def concrete(cand, value, place=None):
    bufs, ptrs, steps, n = geometry(cand)
    bs = []
    for size, g, t, off, nm in bufs:
        data = b''
        for i in range(size // g):
            v = value('%s_%d' % (nm, i), t, g * 8, i)
            if t == 0:
                v &= 1
            data += (v & ((1 << (8 * g)) - 1)).to_bytes(g, 'little')
        bs.append(dict(hex=data.hex(), off=off, place=place))
    return dict(ufunc=cand['name'], sig=list(cand['sig']), bufs=bs, ptrs=ptrs, steps=steps, n=n)


def elems(hx, t):
    b = bytes.fromhex(hx)
    w = ELSIZE[t]
    return [int.from_bytes(b[i:i + w], 'little') for i in range(0, len(b) - w + 1, w)]


def fval(v, w):
    return struct.unpack('<f' if w == 4 else '<d', v.to_bytes(w, 'little'))[0]


def close(name, t, g, w, tol):
    import math
    if g == w:
        return True
    if KIND[t] != 'f':
        return False
    x, y = fval(g, ELSIZE[t]), fval(w, ELSIZE[t])
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if name in specs.ZERO_SIGN_FREE and x == y:
        return True
    if tol:
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(x - y) <= tol * max(abs(x), abs(y), 1e-300) + (1e-30 if ELSIZE[t] == 8 else 1e-7)
    return False


def judge(cand, c, r):
    """text of the difference between pnumpy's loop and NumPy's, or None"""
    if r is None:
        return None
    if r['crash']:
        if not r.get('in_pnumpy', True):
            return None
        return 'the real loop crashed with signal %s' % r['crash']
    if not r['canary']:
        return 'the real loop wrote outside its output'
    sig = cand['sig']
    ob = c['ptrs'][-1][0]
    for b in range(len(c['bufs'])):
        if r['got'][b] == r['want'][b]:
            continue
        if b != ob:
            return 'the real loop changed an input'
        step = c['steps'][-1]
        es = ELSIZE[sig[-1]]
        g, w = bytes.fromhex(r['got'][b]), bytes.fromhex(r['want'][b])
        if cand['kind'] == 'reduce' and KIND[sig[0]] == 'f' and cand['name'] in ('add', 'multiply'):
            if not close(cand['name'], sig[0], int.from_bytes(g, 'little'), int.from_bytes(w, 'little'), 1e-4) and not wide(cand, c, g):
                return 'reduction: got %s want %s' % (g.hex(), w.hex())
            continue
        o = c['ptrs'][-1][1]
        pos = set()
        for i in range(c['n']):
            p = o + i * step
            pos.update(range(p, p + es))
            x, y = int.from_bytes(g[p:p + es], 'little'), int.from_bytes(w[p:p + es], 'little')
            if not close(cand['name'], sig[-1], x, y, {4: 1e-4, 8: 1e-9}[es] if cand['name'] in APPROX else 0):
                return 'element %d of %d: pnumpy stored %s, NumPy stores %s' % (i, c['n'], g[p:p + es].hex(), w[p:p + es].hex())
        for k in range(len(g)):
            if k not in pos and g[k] != w[k]:
                return 'the real loop changed byte %d between the output elements' % k
    return None


def wide(cand, c, g):
    """the result of the float reduction computed exactly and rounded once (NumPy's own order can overflow earlier)"""
    import math
    from fractions import Fraction
    es = ELSIZE[cand['sig'][0]]
    b, o = c['ptrs'][1]
    d = bytes.fromhex(c['bufs'][b]['hex'])
    st = bytes.fromhex(c['bufs'][c['ptrs'][0][0]]['hex'])
    xs = [fval(int.from_bytes(st[:es], 'little'), es)]
    for i in range(c['n']):
        p = o + i * c['steps'][1]
        xs.append(fval(int.from_bytes(d[p:p + es], 'little'), es))
    y = fval(int.from_bytes(g, 'little'), es)
    if any(math.isnan(x) or math.isinf(x) for x in xs):
        return False
    acc = Fraction(0 if cand['name'] == 'add' else 1)
    mag = Fraction(0)
    for x in xs:
        acc = acc + Fraction(x) if cand['name'] == 'add' else acc * Fraction(x)
        mag += abs(Fraction(x))
    big = Fraction(2) ** (128 if es == 4 else 1024)
    if math.isinf(y) or math.isnan(y):
        return abs(acc) > big / 2 or (cand['name'] == 'multiply') or mag > big / 4
    tol = mag * Fraction(1, 10 ** 5) if cand['name'] == 'add' else abs(acc) * Fraction(1, 10 ** 4) + Fraction(1, 2 ** 126)
    return abs(acc - Fraction(y)) <= tol


class Loops(Check):
    batch = None
    batch_timeout = 420
    total_timeout = 780
    names = None
    what = 'diff'

    def sel(self, ctx):
        for name, sig in sorted(ctx.C.replaced):
            if self.want(name, sig):
                yield name, sig

    def want(self, name, sig):
        return True

    def lays(self, name, sig, tier):
        return loops.layouts(sig, tier)

    def ns(self, name, sig, tier):
        return loops.sizes(sig, tier)

    def jobs(self, ctx):
        J = []
        for name, sig in self.sel(ctx):
            L = self.lays(name, sig, ctx.tier)
            ns = self.ns(name, sig, ctx.tier)
            k = 4 if len(sig) == 3 and name in COMPARE and ELSIZE[sig[0]] <= 4 else (2 if name.startswith('is') else 1)
            for p in range(k):
                J.append(('%s:%s#%d' % (name, ','.join(map(str, sig)), p), loops.job, (name, sig, L[p::k], ns), k * 32.0 / ELSIZE[sig[0]]))
        return J

    def group(self, c):
        k = c['key'].split('/')
        s = k[0].split('#')[0]
        n, t = s.split(':')
        return '%s(%s):%s' % (n, ','.join(TN[int(x)] for x in t.split(',')), 'memory' if 'problem' in c else c.get('cls', 'value'))

    def replay(self, ctx, cand):
        env = cand.get('env') or {}

        def fromenv(nm, t, w, i):
            return env.get(nm, (0x3f800000 if w == 32 else 0x3ff0000000000000) + i * 0x1234567 if KIND[t] == 'f' else i + 1)
        cs = []
        places = [None, 'end', 'start'] if self.pid == 'P06' else [None]
        for pl in places:
            cs.append(concrete(cand, fromenv, pl))
        for s in range(40):
            f = filler(s)
            for pl in places:
                cs.append(concrete(cand, lambda nm, t, w, i: env.get(nm) if (s < 6 and nm in env and (i + s) % 3) else f(t, w, i), pl))
        rs = real.cases(cs)
        for c, r in zip(cs, rs):
            t = judge(cand, c, r)
            if t:
                p = os.path.join(outdir(self.pid), '%s_%s.json' % (self.pid, re_name(self.group(cand))))
                json.dump(dict(property=self.pid, case=c, result=r, what=t, found=cand['key'], problem=cand.get('problem'),
                               run='python3-vt /verif/checks/replay.py ' + p), open(p, 'w'), indent=1)
                return p, True, '%s [%s]' % (t, cand['key'])
        return None, False, 'the real module agrees with NumPy on the model and 40 variations: %s %s' % (cand['key'], cand.get('problem', ''))

    def validate(self, ctx):
        """concrete inputs through the encoding and through the compiled module"""
        rnd = random.Random(SEED)
        sel = list(self.sel(ctx))
        cs, cands, envs = [], [], []
        E = ctx.E
        for i in range(min(60, 4 * len(sel))):
            name, sig = rnd.choice(sel)
            lay = rnd.choice([l for l in self.lays(name, sig, 'quick')])
            n = rnd.choice([x for x in self.ns(name, sig, 'quick') if x] or [1])
            cand = dict(kind='loop', name=name, sig=sig, lay=(lay.name, lay.ops, lay.boff), n=n, key='validate')
            f = filler(rnd.random())
            env = {}

            def val(nm, t, w, k):
                env[nm] = f(t, w, k)
                if t == 0:
                    env[nm] &= 1
                return env[nm]
            c = concrete(cand, val)
            cs.append(c)
            cands.append(cand)
            envs.append(env)
        rs = real.cases(cs)
        ok, notes = 0, []
        for cand, c, env, r in zip(cands, cs, envs, rs):
            if r is None or r['crash']:
                continue
            got = self.encode(ctx, cand, env)
            ob = c['ptrs'][-1][0]
            if got is None:
                continue
            if got != r['got'][ob]:
                es = ELSIZE[cand['sig'][-1]]
                a, b = elems(got, cand['sig'][-1]), elems(r['got'][ob], cand['sig'][-1])
                if all(close(cand['name'], cand['sig'][-1], x, y, 1e-6 if cand['name'] in APPROX else 0) for x, y in zip(a, b)):
                    ok += 1
                    continue
                dd = [(hex(x), hex(y)) for x, y in zip(a, b) if x != y][:2]
                notes.append('encoding and build differ: %s %s %s n=%d %s in %s' % (cand['name'], cand['sig'], cand['lay'][0], cand['n'], dd, str(c['bufs'])[:300]))
            else:
                ok += 1
        return ok, notes

    def encode(self, ctx, cand, env):
        E, st = ctx.E, ctx.st
        sig = cand['sig']
        lay = loops.Layout(*cand['lay'])
        s2 = E.forkstate(st, 1)
        ptrs, steps, base = loops.place(ctx, s2, sig, lay, cand['n'])
        E.pcs[:] = []
        E.problems[:] = []
        E.deadline = time.time() + 20
        try:
            E.callp(s2, ctx.C.replaced[(cand['name'], sig)], loops.argblock(ctx, s2, ptrs, steps, cand['n']))
        except Exception:
            return None
        b = lay.ops[-1][0]
        out = b''
        try:
            for off, x, g in loops.buf_bytes(E, s2, base[b], ELSIZE[sig[-1]]):
                v = x if type(x) is int else X.evaluate(x, env, ufeval.ufeval())
                out += v.to_bytes(g, 'little')
        except Exception:
            return None
        return out.hex()


def re_name(s):
    return ''.join(ch if ch.isalnum() else '_' for ch in s)[:80]


LOOP_ASSUME = [
    'elements are aligned to their size; bool elements are 0 or 1; outputs overlap inputs only as NumPy allows (same element, or written behind the read position)',
    'IEEE arithmetic (+,-,*,/) is an uninterpreted function of its operands, so a value is right when the same operation is applied to the same operands; '
    'comparisons, sign, rounding to integral and classification are interpreted exactly over the bit patterns',
    'the encoding is clang -O1 IR of the current sources (scalar evolution and vectorisation by clang off); the shipped build uses gcc -O2; encoding and build are compared on concrete inputs each run']


class P01(Loops):
    pid = 'P01'
    assumptions = LOOP_ASSUME

    def want(self, name, sig):
        return len(sig) == 3 and name not in COMPARE

    def bounds(self, ctx):
        return 'every hooked binary arithmetic/bitwise/logical/min-max loop; %s; 14-26 operand layouts (contiguous, scalar either side, strided, negative, offset, in place, ' \
               'overlapping behind); sizes around one to five vector widths; all element values' % '13 dtypes'


class P02(Loops):
    pid = 'P02'
    assumptions = LOOP_ASSUME

    def want(self, name, sig):
        return name in COMPARE

    def bounds(self, ctx):
        return 'every hooked comparison loop, 13 dtypes, the operand layouts of P01 plus a bool output written over either input; sizes around one to five vector widths; all values'


class P03(Loops):
    pid = 'P03'
    assumptions = LOOP_ASSUME

    def want(self, name, sig):
        return len(sig) == 2 and name not in APPROX

    def bounds(self, ctx):
        return 'every hooked non-transcendental unary loop, 13 dtypes, 12-20 layouts, sizes around one to five vector widths; all values'


class P04(Loops):
    pid = 'P04'
    assumptions = LOOP_ASSUME + ['accuracy of the transcendental functions is not decided here (see P27)']

    def want(self, name, sig):
        return len(sig) == 2 and name in APPROX

    def jobs(self, ctx):
        return [('%s:%s' % (n, ','.join(map(str, s))), loops.approxjob, (n, s, self.lays(n, s, ctx.tier), self.ns(n, s, ctx.tier))) for n, s in self.sel(ctx)]

    def bounds(self, ctx):
        return 'every hooked trigonometric/logarithmic/exponential loop; 12-20 layouts; sizes around one to five vector widths; all values'


class P05(Loops):
    """reductions"""
    pid = 'P05'
    assumptions = LOOP_ASSUME + ['float sums and products are compared as multisets of operands (NumPy itself re-associates them)']

    def want(self, name, sig):
        return len(sig) == 3 and sig[0] == sig[1] == sig[2] and name not in APPROX

    def jobs(self, ctx):
        return [('%s:%s' % (n, ','.join(map(str, s))), loops.redjob, (n, s, loops.red_shapes(s, ctx.tier)), 8.0 / ELSIZE[s[0]]) for n, s in self.sel(ctx)]

    def bounds(self, ctx):
        return 'every hooked binary loop called as a reduction (n up to 6 vector widths, strides 1, 2, -1, 0, offset inputs), every start value and element value'


class P06(Loops):
    """memory safety of the loops"""
    pid = 'P06'
    assumptions = LOOP_ASSUME

    def jobs(self, ctx):
        J = []
        for name, sig in self.sel(ctx):
            V = 32 // ELSIZE[sig[0]]
            ns = sorted(set(self.ns(name, sig, ctx.tier) + [2, 4, 5, V + 1, V + V // 2, 2 * V - 1, 4 * V, 4 * V + 1]))
            L = self.lays(name, sig, ctx.tier)
            J.append(('%s:%s' % (name, ','.join(map(str, sig))), loops.job, (name, sig, L, ns, True), 32.0 / ELSIZE[sig[0]]))
            # every length up to two of the widest chunks on the fast paths
            every = [n for n in list(range(34)) + [47, 48, 63, 64, 65] if n not in ns]
            J.append(('%s:%s' % (name, ','.join(map(str, sig))) + '#n', loops.job, (name, sig, [l for l in L if l.name in ('contig', 'scalar1', 'scalar2')], every, True), 32.0 / ELSIZE[sig[0]]))
            if len(sig) == 3 and sig[0] == sig[1] == sig[2]:
                sh = loops.red_shapes(sig, ctx.tier)
                sh += [(n, 1, o) for n in (4, 5, 6, 7, 3 * V, 3 * V + 2, 5 * V + 3) for o in (0, ELSIZE[sig[1]])]
                sh += [(n, 1, 0) for n in range(4 * V + 4) if (n, 1, 0) not in sh]
                J.append(('%s:%s' % (name, ','.join(map(str, sig))) + '#r', loops.redjob, (name, sig, sh, True), 8.0 / ELSIZE[sig[0]]))
        return J

    def validate(self, ctx):
        return Loops.validate(self, ctx)

    def bounds(self, ctx):
        return 'every hooked loop (elementwise and as a reduction), the layouts of P01-P05, 15 or more sizes from 0 to 5 vector widths and a remainder, every size from 0 to 33, 47, 48 and 63-65 on the contiguous and scalar-operand paths; all values'


CHECKS = {c.pid: c for c in (P01, P02, P03, P04, P05, P06)}
