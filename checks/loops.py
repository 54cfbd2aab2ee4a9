"""Symbolic runs of the loops the module installs in NumPy, against NumPy's element semantics."""
from common import *
import specs
from engine.capi import ELSIZE, KIND

BINARY = ('add', 'subtract', 'multiply', 'divide', 'floor_divide', 'minimum', 'maximum', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
          'left_shift', 'right_shift', 'logical_and', 'logical_or', 'power', 'remainder', 'fmod', 'logical_xor')
COMPARE = ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal')
TN = {0: 'bool', 1: 'int8', 2: 'uint8', 3: 'int16', 4: 'uint16', 5: 'int32', 6: 'uint32', 7: 'int64', 8: 'uint64', 9: 'longlong',
      10: 'ulonglong', 11: 'float32', 12: 'float64'}


def isbin(sig):
    return len(sig) == 3


class Layout(object):
    """operands in buffers: ops[k] = (buffer, element offset, step in elements); byte base offset per buffer"""

    def __init__(self, name, ops, boff=None):
        self.name = name
        self.ops = ops
        self.boff = boff or {}


def layouts(sig, tier, inplace=True):
    es = [ELSIZE[t] for t in sig]
    L = []
    if len(sig) == 3:
        a = [('contig', (1, 1, 1)), ('scalar1', (0, 1, 1)), ('scalar2', (1, 0, 1)), ('str1', (2, 1, 1)), ('str2', (1, 3, 1)),
             ('strout', (1, 1, 2)), ('neg', (-1, -1, -1)), ('neg1', (-1, 1, 1)), ('strall', (2, 2, 2)), ('both0', (0, 0, 1)),
             ('s1strout', (0, 1, 2)), ('s2strout', (1, 0, 2)), ('s1str2', (0, 2, 1)), ('s2str1', (3, 0, 1))]
        for nm, s in a:
            L.append(Layout(nm, [(0, 0, s[0]), (1, 0, s[1]), (2, 0, s[2])]))
        for off in ((1, 0, 0), (0, 1, 2), (3, 3, 3), (1, 1, 1)):
            bo = {j: off[j] * es[j] for j in range(3)}
            L.append(Layout('off%d%d%d' % off, [(0, 0, 1), (1, 0, 1), (2, 0, 1)], bo))
            L.append(Layout('s1off%d%d%d' % off, [(0, 0, 0), (1, 0, 1), (2, 0, 1)], bo))
            L.append(Layout('s2off%d%d%d' % off, [(0, 0, 1), (1, 0, 0), (2, 0, 1)], bo))
        if es[0] == es[2]:
            for o in (0, 1, 3):
                bo = {0: o * es[0], 1: 0}
                L.append(Layout('inplace1_%d' % o, [(0, 0, 1), (1, 0, 1), (0, 0, 1)], bo))
                L.append(Layout('inplace1s2_%d' % o, [(0, 0, 1), (1, 0, 0), (0, 0, 1)], bo))
                L.append(Layout('inplace2_%d' % o, [(0, 0, 1), (1, 0, 1), (1, 0, 1)], {1: o * es[0]}))
                L.append(Layout('inplace2s1_%d' % o, [(0, 0, 0), (1, 0, 1), (1, 0, 1)], {1: o * es[0]}))
            L.append(Layout('allsame', [(0, 0, 1), (0, 0, 1), (0, 0, 1)]))
            L.append(Layout('sameins', [(0, 0, 1), (0, 0, 1), (1, 0, 1)]))
            L.append(Layout('inplstr', [(0, 0, 2), (1, 0, 1), (0, 0, 2)]))
            L.append(Layout('inplneg', [(0, 0, -1), (1, 0, 1), (0, 0, -1)]))
            L.append(Layout('fwd1', [(0, 1, 1), (1, 0, 1), (0, 0, 1)]))
            L.append(Layout('fwd9', [(0, 9, 1), (1, 0, 1), (0, 0, 1)]))
            L.append(Layout('fwd2', [(0, 0, 1), (1, 2, 1), (1, 0, 1)]))
            L.append(Layout('fwdfast', [(0, 0, 2), (1, 0, 1), (0, 0, 1)]))
        else:
            L.append(Layout('outview', [(0, 0, 1), (1, 0, 1), (0, 0, 1)]))
            L.append(Layout('outview2', [(0, 0, 1), (1, 0, 1), (1, 0, 1)]))
            L.append(Layout('outviews1', [(0, 0, 0), (1, 0, 1), (1, 0, 1)]))
            L.append(Layout('sameins', [(0, 0, 1), (0, 0, 1), (1, 0, 1)]))
    else:
        for nm, s in (('contig', (1, 1)), ('str1', (2, 1)), ('strout', (1, 2)), ('neg', (-1, -1)), ('neg1', (-1, 1)), ('negout', (1, -1)),
                      ('strall', (3, 2)), ('bcast', (0, 1))):
            L.append(Layout(nm, [(0, 0, s[0]), (1, 0, s[1])]))
        for off in ((1, 0), (0, 1), (3, 3)):
            L.append(Layout('off%d%d' % off, [(0, 0, 1), (1, 0, 1)], {j: off[j] * es[j] for j in range(2)}))
            L.append(Layout('stroff%d%d' % off, [(0, 0, 2), (1, 0, 1)], {j: off[j] * es[j] for j in range(2)}))
        if es[0] == es[1]:
            for o in (0, 1):
                L.append(Layout('inplace_%d' % o, [(0, 0, 1), (0, 0, 1)], {0: o * es[0]}))
            L.append(Layout('inplstr', [(0, 0, 2), (0, 0, 2)]))
            L.append(Layout('inplneg', [(0, 0, -1), (0, 0, -1)]))
            L.append(Layout('fwd1', [(0, 1, 1), (0, 0, 1)]))
            L.append(Layout('fwdfast', [(0, 0, 2), (0, 0, 1)]))
        else:
            L.append(Layout('outview', [(0, 0, 1), (0, 0, 1)]))
    return L


def sizes(sig, tier):
    V = 32 // ELSIZE[sig[0]]
    q = [0, 1, 3, V - 1, V, 2 * V + 1, 5 * V - 1]
    if tier == 'thorough':
        q += [2, V + 1, 2 * V - 1, 3 * V + 2, 4 * V, 8 * V + 1, 9 * V + 3, 17 * V - 1]
    return sorted(set(q))


def operand_cells(t, n, nm, gran):
    if t == 0:
        return [X.zext(X.var('%s_%d' % (nm, i), 1), 1, 8) for i in range(n)]
    return [X.var('%s_%d' % (nm, i), gran * 8) for i in range(n)]


def place(ctx, st, sig, lay, n, bits=None):
    """allocate the buffers of a layout; returns argument block pointers and per-buffer info"""
    E = ctx.E
    es = [ELSIZE[t] for t in sig]
    ext = {}
    for k, (b, off, step) in enumerate(lay.ops):
        lo = (off + (step * (n - 1) if step < 0 and n > 0 else 0)) * es[k]
        hi = (off + (step * (n - 1) if step > 0 and n > 0 else 0) + 1) * es[k]
        if b in ext:
            ext[b] = (min(ext[b][0], lo), max(ext[b][1], hi), ext[b][2] if es[ext[b][2]] <= es[k] and False else ext[b][2])
        else:
            ext[b] = (lo, hi, k)
    base = {}
    for b, (lo, hi, k) in ext.items():
        size = hi - lo
        g = es[k]
        while size % g:
            g //= 2
        a = E.newobj(st, size, g, 'buf%d' % b, off=lay.boff.get(b, 0), init=operand_cells(sig[k], size // g, 'abc'[b], g), kind='data')
        base[b] = (a, lo, size)
    ptrs = [base[b][0] - base[b][1] + off * es[k] for k, (b, off, step) in enumerate(lay.ops)]
    steps = [s * es[k] for k, (_, _, s) in enumerate(lay.ops)]
    return ptrs, steps, base


def argblock(ctx, st, ptrs, steps, n):
    E = ctx.E
    k = len(ptrs)
    args = E.newobj(st, 8 * k, 8, 'args', init=list(ptrs))
    dims = E.newobj(st, 8, 8, 'dims', init=[n])
    stp = E.newobj(st, 8 * k, 8, 'steps', init=[s & X.MASK[64] for s in steps])
    return [args, dims, stp, 0]


def normname(s):
    return s.split('_')[0]


def canon_fn(ctx, st, name, sig):
    """for ufuncs whose NumPy result is a numeric approximation: the module's own result on one element, so that what is
    decided is that every element of every layout gets the same function"""
    key = ('canon', name, sig)
    c = ctx.__dict__.setdefault('canon', {})
    if key in c:
        return c[key]
    E = ctx.E
    lay = Layout('one', [(i, 0, 1) for i in range(len(sig))])
    s = E.forkstate(st, 1)
    ptrs, steps, base = place(ctx, s, sig, lay, 1)
    E.callp(s, ctx.C.replaced[(name, sig)], argblock(ctx, s, ptrs, steps, 1))
    r = E.load(s, ptrs[-1], ELSIZE[sig[-1]])
    c[key] = r
    return r


def subst(n, m):
    """replace variables by expressions (m: name -> expr)"""
    cache = {}

    def go(x):
        if type(x) is int:
            return x
        if x in cache:
            return cache[x]
        if x.op == 'var':
            r = m.get(x.a[0], x)
        elif x.op == 'uf':
            args = []
            for a in x.a[1:]:
                if type(a) is tuple:
                    args.append(a)
                else:
                    v = go(a)
                    args.append((v, a.w) if type(v) is int else v)
            r = X.uf(x.a[0], x.w, *args)
        else:
            def sub(a):
                if isinstance(a, X.Node):
                    return go(a)
                if type(a) is tuple:
                    return tuple(sub(y) for y in a)
                return a
            r = X.mk(x.op, x.w, *[sub(a) for a in x.a])
        cache[x] = r
        return r
    return go(n)


def reference(ctx, st, name, sig, ptrs, steps, n):
    """NumPy's sequential inner loop on state st"""
    E = ctx.E
    es = [ELSIZE[t] for t in sig]
    p = list(ptrs)
    for i in range(n):
        ins = [E.load(st, p[j], es[j]) for j in range(len(sig) - 1)]
        r = specs.spec(name, sig, ins)
        if r is None:
            f = canon_fn(ctx, ctx.st, name, sig)
            r = subst(f, {'%s_0' % 'abc'[j]: ins[j] for j in range(len(ins))})
        E.store(st, p[-1], r, es[-1])
        for j in range(len(sig)):
            p[j] += steps[j]


def buf_bytes(E, st, base, es):
    a, lo, size = base
    g = es
    while size % g:
        g //= 2
    return [(i, E.load(st, a + i, g), g) for i in range(0, size, g)]


def job(ctx, rec, key, name, sig, lays, ns, want_mem=False):
    E, C, st = ctx.E, ctx.C, ctx.st
    fp = C.replaced[(name, sig)]
    es = [ELSIZE[t] for t in sig]
    spec_t = sig[-1]
    for lay in lays:
        for n in ns:
            if n == 0 and lay.name not in ('contig', 'str1'):
                continue
            k2 = '%s/%s/n%d' % (key, lay.name, n)
            s2 = E.forkstate(st, 1)
            ptrs, steps, base = place(ctx, s2, sig, lay, n)
            if lay.name.startswith('one0'):
                steps = [0] * len(sig)
            s3 = E.forkstate(s2, 1)
            if not want_mem:
                reference(ctx, s3, name, sig, ptrs, steps, n)
            blk = argblock(ctx, s2, ptrs, steps, n)
            np0 = len(E.problems)
            cand = dict(key=k2, kind='loop', name=name, sig=sig, lay=(lay.name, lay.ops, lay.boff), n=n, steps=steps)
            E.pcs[:] = []
            try:
                E.callp(s2, fp, blk)
            except PathDead:
                pass
            except Unsupported as e:
                rec.unsupported[k2] = str(e)
                continue
            if len(E.problems) > np0:
                for p in E.problems[np0:]:
                    rec.obligations += 1
                    rec.cand(dict(cand, key=k2 + '/' + p['kind'], env=p['model'] or {}, problem='%s: %s at %s' % (p['kind'], p['msg'], p['where'])))
                continue
            rec.obligations += 1
            rec.discharged += 1
            bad_seen = 0
            for b in base:
                ob = b == lay.ops[-1][0]
                if want_mem:
                    # only the elements of the output may change
                    outs = set()
                    if ob:
                        for i in range(n):
                            p = ptrs[-1] + i * steps[-1]
                            outs.update(range(p, p + es[-1]))
                    a0, lo, size = base[b]
                    g = 1
                    for g in (8, 4, 2, 1):
                        if size % g == 0 and all(e % g == 0 for e in es):
                            break
                    for i in range(0, size, g):
                        if a0 + i in outs:
                            continue
                        x, y = E.load(s2, a0 + i, g), E.load(s3, a0 + i, g)
                        if x is y or x == y:
                            rec.oblige(E, 0, cand)
                        else:
                            rec.oblige(E, X.bnot(X.eq(x, y, g * 8)), dict(cand, problem='writes between or before the output elements'))
                    continue
                g = es[-1] if ob else es[[q for q, o in enumerate(lay.ops) if o[0] == b][0]]
                for (off, x, gg), (_, y, _) in zip(buf_bytes(E, s2, base[b], g), buf_bytes(E, s3, base[b], g)):
                    if x is y or (type(x) is int and x == y):
                        rec.oblige(E, 0, cand)
                        continue
                    if ob and gg == es[-1]:
                        bad = X.bnot(specs.same(name, spec_t, x, y))
                    else:
                        bad = X.bnot(X.eq(x, y, gg * 8))
                    if bad_seen < 1:
                        if not rec.oblige(E, bad, dict(cand, buf=b, off=off, got=x, want=y) if False else dict(cand, buf=b, off=off), norm=normname):
                            bad_seen += 1
                    else:
                        rec.obligations += 1
    rec.reach(key)


def run_pre_state(ctx):
    pass


# ------------------------------------------------------------------------------------------------ reductions
def leaves(x, op, w, out=None, cache=None):
    """operands of a tree of the (uninterpreted) associative float operation op"""
    out = [] if out is None else out
    st = [x]
    while st:
        v = st.pop()
        if isinstance(v, X.Node) and v.op == 'uf' and v.a[0].startswith(op):
            for a in v.a[1:]:
                st.append(a[0] if type(a) is tuple else a)
        else:
            out.append(v)
    return out


def fold(name, sig, start, vals):
    acc = start
    for v in vals:
        acc = specs.spec(name, sig, [acc, v])
        if acc is None:
            return None
    return acc


def reduce_args(ctx, st, sig, n, step, off=0, ooff=0):
    E = ctx.E
    es = ELSIZE[sig[1]]
    size = max(abs(step) * (n - 1) + 1, 1) * es if n else es
    a = E.newobj(st, size, es, 'bufb', off=off, init=operand_cells(sig[1], size // es, 'b', es), kind='data')
    o = E.newobj(st, ELSIZE[sig[0]], ELSIZE[sig[0]], 'bufo', off=ooff, init=operand_cells(sig[0], 1, 'o', ELSIZE[sig[0]]), kind='data')
    p = a + (abs(step) * (n - 1) * es if step < 0 and n else 0)
    return o, p, a, size


def redjob(ctx, rec, key, name, sig, shapes, want_mem=False):
    """args[0] == args[2], steps 0: the reduction inner loop"""
    E, C, st = ctx.E, ctx.C, ctx.st
    fp = C.replaced[(name, sig)]
    es = ELSIZE[sig[1]]
    eo = ELSIZE[sig[0]]
    fl = KIND[sig[0]] == 'f'
    for n, step, off in shapes:
        k2 = '%s/reduce/n%d_s%d_o%d' % (key, n, step, off)
        s2 = E.forkstate(st, 1)
        o, p, a, size = reduce_args(ctx, s2, sig, n, step, off)
        start = E.load(s2, o, eo)
        vals = [E.load(s2, p + i * step * es, es) for i in range(n)]
        # the reference
        if sig[1] != sig[0]:
            continue
        blk = argblock(ctx, s2, [o, p, o], [0, step * es, 0], n)
        np0 = len(E.problems)
        cand = dict(key=k2, kind='reduce', name=name, sig=sig, n=n, step=step, off=off)
        E.pcs[:] = []
        try:
            E.callp(s2, fp, blk)
        except PathDead:
            pass
        except Unsupported as e:
            rec.unsupported[k2] = str(e)
            continue
        if len(E.problems) > np0:
            for q in E.problems[np0:]:
                rec.obligations += 1
                rec.cand(dict(cand, key=k2 + '/' + q['kind'], env=q['model'] or {}, problem='%s: %s at %s' % (q['kind'], q['msg'], q['where'])))
            continue
        if want_mem:
            rec.oblige(E, 0, cand)
            continue
        got = E.load(s2, o, eo)
        w = eo * 8
        for i in range(n):
            # inputs unchanged
            x = E.load(s2, p + i * step * es, es)
            if not (x is vals[i] or x == vals[i]):
                rec.oblige(E, X.bnot(X.eq(x, vals[i], w)), cand)
        want = fold(name, sig, start, vals)
        if want is None:
            rec.unsupported[k2] = 'no reference'
            continue
        if got is want or (type(got) is int and got == want):
            rec.oblige(E, 0, cand)
            continue
        if fl and name in ('add', 'multiply'):
            op = {'add': 'fadd', 'multiply': 'fmul'}[name]
            key_ = lambda v: ('i', v) if type(v) is int else ('n', v.id)
            gl = sorted(map(key_, float_leaves(got, op)))
            wl = sorted(map(key_, [start] + vals))
            if gl == wl:
                rec.oblige(E, 0, cand)
            else:
                rec.oblige(E, 1, dict(cand, note='operands of the float reduction differ'))
            continue
        if name in ('minimum', 'maximum') and n > 2:
            gl = mm_leaves(rec, E, got, name, sig, cand)
            wl = set(('i', v) if type(v) is int else ('n', v.id) for v in [start] + vals)
            if set(gl) == wl:
                rec.oblige(E, 0, cand)
                continue
        bad = X.bnot(specs.same(name, sig[0], got, want))
        rec.oblige(E, bad, cand)
    rec.reach(key)


def strip(v):
    """operand of a float accumulation done in a wider type: look through widening and narrowing"""
    while isinstance(v, X.Node) and v.op == 'uf' and v.a[0].split('_')[0] in ('fpext', 'fptrunc'):
        v = v.a[1][0] if type(v.a[1]) is tuple else v.a[1]
    return v


ZEROS = (0, 1 << 31, 1 << 63)
ONES = (0x3f800000, 0x3ff0000000000000)


def float_leaves(x, op):
    out = []
    st = [x]
    while st:
        v = strip(st.pop())
        if isinstance(v, X.Node) and v.op == 'uf' and v.a[0].split('_')[0] == op:
            for a in v.a[1:]:
                st.append(a[0] if type(a) is tuple else a)
        elif type(v) is int and v in (ZEROS if op == 'fadd' else ONES):
            pass
        else:
            out.append(v)
    return out


def replace_nodes(n, m):
    """replace whole sub-expressions (m: node id -> expression)"""
    cache = {}

    def go(x):
        if type(x) is int:
            return x
        if x.id in m:
            return m[x.id]
        if x in cache:
            return cache[x]
        if x.op == 'var':
            r = x
        elif x.op == 'uf':
            args = []
            for a in x.a[1:]:
                if type(a) is tuple:
                    args.append(a)
                else:
                    v = go(a)
                    args.append((v, a.w) if type(v) is int else v)
            r = X.uf(x.a[0], x.w, *args)
        else:
            def sub(a):
                if isinstance(a, X.Node):
                    return go(a)
                if type(a) is tuple:
                    return tuple(sub(y) for y in a)
                return a
            r = X.mk(x.op, x.w, *[sub(a) for a in x.a])
        cache[x] = r
        return r
    return go(n)


def mm_leaves(rec, E, x, name, sig, cand):
    """operands of a tree of minimum/maximum; every node is shown by the solver to be the operation of its two children"""
    w = ELSIZE[sig[0]] * 8
    out = {}
    st = [x]
    seen = set()
    while st:
        v = st.pop()
        k = ('i', v) if type(v) is int else ('n', v.id)
        if k in seen:
            continue
        seen.add(k)
        if isinstance(v, X.Node) and v.op == 'ite':
            c, p, q = v.a[:3]
            P, Q = X.var('p_0', w), X.var('q_0', w)
            m = {}
            if isinstance(p, X.Node):
                m[p.id] = P
            if isinstance(q, X.Node):
                m[q.id] = Q
            c2 = replace_nodes(c, m)
            if set(v[0] for v in X.vars_of(c2)) <= {'p_0', 'q_0'}:
                pe = P if isinstance(p, X.Node) else p
                qe = Q if isinstance(q, X.Node) else q
                bad = X.bnot(specs.same(name, sig[0], X.ite(c2, pe, qe, w), specs.spec(name, sig, [pe, qe])))
                ok = rec._cache.get(('mm', name, sig, bad if type(bad) is int else bad.id))
                if ok is None:
                    if type(bad) is int and bad == 0:
                        ok = True
                    else:
                        s = z3.SolverFor('QF_UFBV')
                        s.set('timeout', 20000)
                        s.add(X.zb(bad))
                        t = time.time()
                        ok = str(s.check()) == 'unsat'
                        rec.queries += 1
                        rec.qtime += time.time() - t
                    rec._cache[('mm', name, sig, bad if type(bad) is int else bad.id)] = ok
                if ok:
                    st += [p, q]
                    continue
        out[k] = v
    return out


def red_shapes(sig, tier):
    V = 32 // ELSIZE[sig[1]]
    ns = [0, 1, 2, 3, 2 * V - 1, 2 * V, 2 * V + 1, 4 * V, 6 * V + 1]
    sh = [(n, 1, 0) for n in ns] + [(2 * V, 1, ELSIZE[sig[1]]), (4 * V + 1, 1, ELSIZE[sig[1]] * 3), (5, 2, 0), (2 * V + 1, 2, 0), (5, -1, 0),
                                    (2 * V + 1, -1, 0), (1, 0, 0), (4, 0, 0)]
    if V <= 16:
        sh += [(n, 1, 0) for n in range(4 * V + 2) if n not in ns]
    return sh


# ------------------------------------------------------------------------------------------------ numeric approximations
def approx_forms(ctx, name, sig):
    """the functions the module computes for one element: on its own, and in each lane of a full vector; expressed over a_0"""
    E, st = ctx.E, ctx.st
    es = ELSIZE[sig[0]]
    forms = []
    for n in (1, 32 // es, 128 // es):
        s = E.forkstate(st, 1)
        lay = Layout('c', [(0, 0, 1), (1, 0, 1)])
        ptrs, steps, base = place(ctx, s, sig, lay, n)
        E.pcs[:] = []
        E.callp(s, ctx.C.replaced[(name, sig)], argblock(ctx, s, ptrs, steps, n))
        r = [E.load(s, ptrs[1] + i * es, ELSIZE[sig[1]]) for i in range(n)]
        i = min(n - 1, 0)
        f = X.rename(r[i], lambda q: 'a_0' if q == 'a_%d' % i else 'other_' + q)
        if f not in forms:
            forms.append(f)
    f = specs.nploop(name, sig, [X.var('a_0', es * 8)])
    if f not in forms:
        forms.append(f)
    return forms


def approxjob(ctx, rec, key, name, sig, lays, ns):
    """every output element is one of the module's one-element functions of its own input element and of nothing else"""
    E, C, st = ctx.E, ctx.C, ctx.st
    fp = C.replaced[(name, sig)]
    es = [ELSIZE[t] for t in sig]
    np0 = len(E.problems)
    forms = approx_forms(ctx, name, sig)
    nf = []
    for f in forms:
        vs = set(X.vars_of(f)) if type(f) is not int else set()
        cand = dict(key=key + '/contig/form', kind='loop', name=name, sig=sig, n=128 // es[0], lay=('contig', [(0, 0, 1), (1, 0, 1)], {}), env={})
        other = dict((v, X.var('o2' + v, w)) for v, w in vs if v != 'a_0')
        if not other:
            rec.oblige(E, 0, cand)
        else:
            # lanes are computed together: the other lanes must not matter
            E.pcs[:] = []
            f0 = subst(f, dict((v, X.var('a_0', es[0] * 8)) for v in other))
            rec.oblige(E, X.bnot(specs.same(name, sig[1], f, f0)), cand, timeout=60000)
            f = f0
        if f not in nf:
            nf.append(f)
    forms = nf
    rec.notes['forms ' + key] = len(forms)
    for lay in lays:
        for n in ns:
            if n == 0 and lay.name not in ('contig', 'str1'):
                continue
            k2 = '%s/%s/n%d' % (key, lay.name, n)
            s2 = E.forkstate(st, 1)
            ptrs, steps, base = place(ctx, s2, sig, lay, n)
            s3 = E.forkstate(s2, 1)
            ins = [E.load(s2, ptrs[0] + i * steps[0], es[0]) for i in range(n)]
            cand = dict(key=k2, kind='loop', name=name, sig=sig, lay=(lay.name, lay.ops, lay.boff), n=n, steps=steps, env={})
            E.pcs[:] = []
            np0 = len(E.problems)
            try:
                E.callp(s2, fp, argblock(ctx, s2, ptrs, steps, n))
            except PathDead:
                pass
            except Unsupported as e:
                rec.unsupported[k2] = str(e)
                continue
            if len(E.problems) > np0:
                for p in E.problems[np0:]:
                    rec.obligations += 1
                    rec.cand(dict(cand, key=k2 + '/' + p['kind'], env=p['model'] or {}, problem='%s: %s at %s' % (p['kind'], p['msg'], p['where'])))
                continue
            touched = set()
            for i in range(n):
                a = ptrs[1] + i * steps[1]
                touched.update(range(a, a + es[1]))
                got = E.load(s2, a, es[1])
                al = [subst(f, {'a_0': ins[i]}) for f in forms]
                if any(got is f or (type(got) is int and got == f) for f in al):
                    rec.oblige(E, 0, cand)
                    continue
                bad = 1
                for f in al:
                    bad = X.band(bad, X.bnot(specs.same(name, sig[1], got, f)))
                if not rec.oblige(E, bad, cand, timeout=20000):
                    break
            for b in base:
                a, lo, size = base[b]
                g = es[0]
                while size % g:
                    g //= 2
                for i in range(0, size, g):
                    if (a + i) in touched:
                        continue
                    x, y = E.load(s2, a + i, g), E.load(s3, a + i, g)
                    if x is y or (type(x) is int and x == y):
                        rec.oblige(E, 0, cand)
                    else:
                        rec.oblige(E, X.bnot(X.eq(x, y, g * 8)), cand)
    rec.reach(key)
