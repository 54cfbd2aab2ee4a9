"""Scalar/vector operation helpers used by the generated block code."""
import math
import struct
from . import ex as X
from .ex import MASK


class LV(object):
    """vector value whose lanes are held at a width different from the nominal one"""
    __slots__ = ('l', 'w')

    def __init__(self, l, w):
        self.l = l
        self.w = w


def L(v, n, w):
    """nominal lanes: n lanes of width w"""
    if type(v) is list:
        return v
    if v.w == w:
        return v.l
    return relane(v.l, v.w, w)


def relane(l, fw, tw):
    if fw == tw:
        return l
    if fw < tw and tw % fw == 0:
        k = tw // fw
        return [X.concat([(x, fw) for x in l[i:i + k]]) for i in range(0, len(l), k)]
    if fw > tw and fw % tw == 0:
        k = fw // tw
        out = []
        for x in l:
            for i in range(k):
                out.append(X.extract(x, i * tw + tw - 1, i * tw))
        return out
    b = relane(l, fw, 1)
    return relane(b, 1, tw)


def vbitcast(v, n, w):
    if type(v) is list:
        return LV(v, w)
    return v


def vconcat(v, n, w):
    if type(v) is not list:
        l, w = v.l, v.w
    else:
        l = v
    return X.concat([(x, w) for x in l])


# ---------------------------------------------------------------- float
def f2b(x, w):
    if w == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError:
            return 0x7f800000 if x > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def b2f(b, w):
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


DNAN = {32: 0xffc00000, 64: 0xfff8000000000000}
QBIT = {32: 1 << 22, 64: 1 << 51}


def cf(op, a, b, w):
    """concrete float op, x86 NaN conventions"""
    if X.fisnan(a, w):
        return a | QBIT[w]
    if X.fisnan(b, w):
        return b | QBIT[w]
    x, y = b2f(a, w), b2f(b, w)
    try:
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            r = x * y
        elif op == 'fdiv':
            if y == 0:
                if x == 0:
                    return DNAN[w]
                r = math.copysign(math.inf, x) * math.copysign(1.0, y)
            else:
                r = x / y
        elif op == 'frem':
            if y == 0 or math.isinf(x):
                return DNAN[w]
            r = math.fmod(x, y)
    except OverflowError:
        r = math.inf
    if r != r:
        return DNAN[w]
    return f2b(r, w)


def ufargs(w, *xs):
    return [(x, w) if type(x) is int else x for x in xs]


def fop(op, a, b, w):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb and w in (32, 64):
        return cf(op, a, b, w)
    sgn = 1 << (w - 1)
    if w in (32, 64):
        if op == 'fsub' and ta and a == 0:
            # 0 - x, exactly: +0 for +-0, quieted NaN, otherwise sign flip
            return X.ite(X.eq(X.fabsb(b, w), 0, w), 0,
                         X.ite(X.fisnan(b, w), X.or_(b, QBIT[w], w), X.xor(b, sgn, w), w), w)
        if op == 'fsub' and ta and a == sgn:
            return X.ite(X.fisnan(b, w), X.or_(b, QBIT[w], w), X.xor(b, sgn, w), w)
        if op == 'fadd' and (ta or tb):
            k, x = (a, b) if ta else (b, a)
            if k == 0:
                return X.ite(X.eq(x, sgn, w), 0, X.ite(X.fisnan(x, w), X.or_(x, QBIT[w], w), x, w), w)
            if k == sgn:
                return X.ite(X.fisnan(x, w), X.or_(x, QBIT[w], w), x, w)
        one = f2b(1.0, w)
        if op == 'fmul' and (ta or tb):
            k, x = (a, b) if ta else (b, a)
            if k == one:
                return X.ite(X.fisnan(x, w), X.or_(x, QBIT[w], w), x, w)
            if k == one | sgn:
                return X.ite(X.fisnan(x, w), X.or_(x, QBIT[w], w), X.xor(x, sgn, w), w)
        if op == 'fdiv' and tb and b == one:
            return X.ite(X.fisnan(a, w), X.or_(a, QBIT[w], w), a, w)
        if tb and op == 'fsub' and not X.fisnan(b, w):
            op, b = 'fadd', b ^ sgn
        if tb and op == 'fdiv' and not X.fisnan(b, w):
            import math
            v = b2f(b, w)
            if v and math.isfinite(v) and abs(math.frexp(v)[0]) == 0.5 and 2.0 ** -100 < abs(v) < 2.0 ** 100:
                op, b = 'fmul', f2b(1.0 / v, w)
    if op in ('fadd', 'fmul'):
        if ta or (not tb and a.id > b.id):
            a, b = b, a
    return X.uf(op, w, *ufargs(w, a, b))


def fneg(a, w):
    return X.xor(a, 1 << (w - 1), w)


def fcast(op, a, fw, tw):
    if type(a) is int and fw <= 64 and tw <= 64:
        if op == 'sitofp':
            return f2b(float(X.sx(a, fw)), tw) if tw == 64 else i2f32(X.sx(a, fw))
        if op == 'uitofp':
            return f2b(float(a), tw) if tw == 64 else i2f32(a)
        if op == 'fpext' or op == 'fptrunc':
            if X.fisnan(a, fw):
                return DNAN[tw]
            return f2b(b2f(a, fw), tw)
        if op in ('fptosi', 'fptoui'):
            x = b2f(a, fw)
            if x != x or math.isinf(x):
                return 1 << (tw - 1)
            i = int(x)
            if op == 'fptosi' and not (-(1 << (tw - 1)) <= i < (1 << (tw - 1))):
                return 1 << (tw - 1)
            return i & MASK[tw]
    if op in ('sitofp', 'uitofp') and type(a) is not int:
        if a.op == 'vs':
            return X.vmap1(a, lambda v: fcast(op, v, fw, tw), tw) if tw <= 64 else X.uf(op, tw, a)
        # canonicalise: conversion of an extended integer is the conversion of the integer
        if a.op == 'zext':
            return X.uf('uitofp', tw, a.a[0])
        if a.op == 'sext' and op == 'sitofp':
            return X.uf('sitofp', tw, a.a[0])
    return X.uf(op, tw, *ufargs(fw, a))


def i2f32(i):
    import numpy as np
    return int(np.float32(i).view(np.uint32)) if False else _i2f32(i)


def _i2f32(i):
    if i == 0:
        return 0
    s = 0x80000000 if i < 0 else 0
    m = abs(i)
    e = m.bit_length() - 1
    if e <= 23:
        fr = (m << (23 - e)) & 0x7fffff
        return s | ((e + 127) << 23) | fr
    sh = e - 23
    q = m >> sh
    r = m & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if r > half or (r == half and q & 1):
        q += 1
        if q >> 24:
            q >>= 1
            e += 1
    return s | ((e + 127) << 23) | (q & 0x7fffff)


def icmp(p, a, b, w):
    if p == 'eq':
        return X.eq(a, b, w)
    if p == 'ne':
        return X.bnot(X.eq(a, b, w))
    if p == 'ult':
        return X.ult(a, b, w)
    if p == 'ule':
        return X.ule(a, b, w)
    if p == 'ugt':
        return X.ult(b, a, w)
    if p == 'uge':
        return X.ule(b, a, w)
    if p == 'slt':
        return X.slt(a, b, w)
    if p == 'sle':
        return X.sle(a, b, w)
    if p == 'sgt':
        return X.slt(b, a, w)
    return X.sle(b, a, w)


def fcmp(p, a, b, w):
    if p == 'oeq':
        return X.feq(a, b, w)
    if p == 'une':
        return X.bnot(X.feq(a, b, w))
    if p == 'olt':
        return X.flt(a, b, w)
    if p == 'ogt':
        return X.flt(b, a, w)
    if p == 'ole':
        return X.fle(a, b, w)
    if p == 'oge':
        return X.fle(b, a, w)
    if p == 'uno':
        return X.funo(a, b, w)
    if p == 'ord':
        return X.bnot(X.funo(a, b, w))
    if p == 'ueq':
        return X.bor(X.funo(a, b, w), X.feq(a, b, w))
    if p == 'one':
        return X.bnot(X.bor(X.funo(a, b, w), X.feq(a, b, w)))
    if p == 'ult':
        return X.bnot(X.fle(b, a, w))
    if p == 'ugt':
        return X.bnot(X.fle(a, b, w))
    if p == 'ule':
        return X.bnot(X.flt(b, a, w))
    if p == 'uge':
        return X.bnot(X.flt(a, b, w))
    if p == 'true':
        return 1
    return 0


# ---------------------------------------------------------------- vectors
FB = {'add': X.add, 'sub': X.sub, 'mul': X.mul, 'and': X.and_, 'or': X.or_, 'xor': X.xor, 'shl': X.shl,
      'lshr': X.lshr, 'ashr': X.ashr, 'udiv': X.udiv, 'sdiv': X.sdiv, 'urem': X.urem, 'srem': X.srem}


def vbin(E, op, a, b, n, w):
    if op in ('and', 'or', 'xor'):
        # bitwise: lane width is irrelevant, keep the finer one
        f = FB[op]
        if type(a) is LV and type(b) is LV and a.w == b.w:
            lw = a.w
            return LV([f(x, y, lw) for x, y in zip(a.l, b.l)], lw)
        if type(a) is LV and a.w < w or type(b) is LV and b.w < w:
            lw = min(a.w if type(a) is LV else w, b.w if type(b) is LV else w)
            la = relane(a.l if type(a) is LV else a, a.w if type(a) is LV else w, lw)
            lb = relane(b.l if type(b) is LV else b, b.w if type(b) is LV else w, lw)
            return LV([f(x, y, lw) for x, y in zip(la, lb)], lw)
    la = L(a, n, w)
    lb = L(b, n, w)
    if op[0] == 'f':
        return [fop(op, x, y, w) for x, y in zip(la, lb)]
    f = FB[op]
    return [f(x, y, w) for x, y in zip(la, lb)]


def vun(f, a, n, w):
    return [f(x) for x in L(a, n, w)]


def vicmp(p, a, b, n, w):
    return [icmp(p, x, y, w) for x, y in zip(L(a, n, w), L(b, n, w))]


def vfcmp(p, a, b, n, w):
    return [fcmp(p, x, y, w) for x, y in zip(L(a, n, w), L(b, n, w))]


def vselect(c, a, b, n, w):
    return [X.ite(k, x, y, w) for k, x, y in zip(L(c, n, 1), L(a, n, w), L(b, n, w))]


def vselect1(c, a, b, n, w):
    if type(c) is int:
        return a if c else b
    return [X.ite(c, x, y, w) for x, y in zip(L(a, n, w), L(b, n, w))]


def vcast(op, a, n, fw, tw):
    l = L(a, n, fw)
    if op == 'trunc':
        return [X.extract(x, tw - 1, 0) for x in l]
    if op == 'zext':
        return [X.zext(x, fw, tw) for x in l]
    if op == 'sext':
        return [X.sext(x, fw, tw) for x in l]
    return [fcast(op, x, fw, tw) for x in l]


def vshuffle(a, b, m, n, w):
    # keep finer lanes if both are in the same finer representation
    lw = w
    if type(a) is LV and a.w < w and w % a.w == 0 and (type(b) is list or b.w == a.w):
        lw = a.w
    elif type(b) is LV and b.w < w and w % b.w == 0 and type(a) is list:
        lw = b.w
    if lw == w:
        l = L(a, n, w) + L(b, n, w)
        return [l[i] if i < len(l) else 0 for i in m]
    k = w // lw
    la = relane(a.l, a.w, lw) if type(a) is LV else relane(a, w, lw)
    lb = relane(b.l, b.w, lw) if type(b) is LV else relane(b, w, lw)
    l = la + lb
    out = []
    for i in m:
        out.extend(l[i * k:i * k + k])
    return LV(out, lw)


def vinsert(a, e, i, n, w):
    l = list(L(a, n, w))
    l[i] = e
    return l


def vextract(a, i, n, w):
    return L(a, n, w)[i]


def insval(a, e, k, n):
    t = list(a) if isinstance(a, tuple) else [0] * n
    t[k] = e
    return tuple(t)


def smin(a, b, w):
    return X.ite(X.slt(a, b, w), a, b, w)


def smax(a, b, w):
    return X.ite(X.slt(b, a, w), a, b, w)


def umin(a, b, w):
    return X.ite(X.ult(a, b, w), a, b, w)


def umax(a, b, w):
    return X.ite(X.ult(b, a, w), a, b, w)


def iabs(a, w):
    return X.ite(X.slt(a, 0, w), X.neg(a, w), a, w)


def satpack(x, fw, tw):
    hi = (1 << (tw - 1)) - 1
    lo = (-(1 << (tw - 1))) & MASK[fw]
    if type(x) is not int and x.op == 'sext' and x.a[0].w <= tw:
        return X.sext(x.a[0], x.a[0].w, tw)
    r = X.ite(X.slt(x, lo, fw), lo, X.ite(X.slt(hi, x, fw), hi, x, fw), fw)
    return X.extract(r, tw - 1, 0)


def usatpack(x, fw, tw):
    hi = MASK[tw]
    r = X.ite(X.slt(x, 0, fw), 0, X.ite(X.slt(hi, x, fw), hi, x, fw), fw)
    return X.extract(r, tw - 1, 0)


def fround(x, mode, w):
    """mode: 0 nearest even, 1 floor, 2 ceil, 3 trunc, 5 half away"""
    if type(x) is int and w in (32, 64):
        f = b2f(x, w)
        if f != f:
            return x | QBIT[w]
        if math.isinf(f):
            return x
        r = {0: lambda: float(round(f)), 1: lambda: float(math.floor(f)), 2: lambda: float(math.ceil(f)),
             3: lambda: float(math.trunc(f)), 5: lambda: float(math.floor(abs(f) + 0.5))}[mode]()
        return f2b(math.copysign(r, f), w)
    return X.uf('fround%d' % mode, w, *ufargs(w, x))


def fsqrt(x, w):
    if type(x) is int and w in (32, 64):
        f = b2f(x, w)
        if f != f:
            return x | QBIT[w]
        if f < 0:
            return DNAN[w]
        return f2b(math.sqrt(f), w)
    return X.uf('fsqrt', w, *ufargs(w, x))


def fpclass(x, mask, w):
    """llvm.is.fpclass bit mask"""
    s = X.extract(x, w - 1, w - 1)
    mag = X.fabsb(x, w)
    isnan = X.fisnan(x, w)
    inf = X.eq(mag, X.finf(w), w)
    zero = X.eq(mag, 0, w)
    e = X.EXPW[w]
    mant = w - 1 - e
    sub = X.band(X.bnot(zero), X.ult(mag, 1 << mant, w))
    q = X.extract(x, mant - 1, mant - 1)
    norm = X.balls([X.bnot(isnan), X.bnot(inf), X.bnot(zero), X.bnot(sub)])
    ns = X.bnot(s)
    cls = [X.band(isnan, X.bnot(q)), X.band(isnan, q), X.band(s, inf), X.band(s, norm), X.band(s, sub), X.band(s, zero),
           X.band(ns, zero), X.band(ns, sub), X.band(ns, norm), X.band(ns, inf)]
    if mask == 3:
        return isnan
    if mask == 0x204:
        return inf
    if mask == 0x1f8:
        return X.ult(mag, X.finf(w), w)
    if mask == 0x207:
        return X.bnot(X.ult(mag, X.finf(w), w))
    if mask == 0x1fb:
        return X.bnot(inf)
    return X.banys([c for i, c in enumerate(cls) if mask >> i & 1])


SIMPLE2 = {'llvm.smin': smin, 'llvm.smax': smax, 'llvm.umin': umin, 'llvm.umax': umax}


def intrin(E, st, name, a, n, w, an, aw):
    parts = name.split('.')
    base = '.'.join(parts[:2])
    f = SIMPLE2.get(base)
    if f:
        if n:
            return [f(x, y, w) for x, y in zip(L(a[0], n, w), L(a[1], n, w))]
        return f(a[0], a[1], w)
    if base == 'llvm.abs':
        if n:
            return [iabs(x, w) for x in L(a[0], n, w)]
        return iabs(a[0], w)
    if base == 'llvm.fabs':
        if n:
            return [X.fabsb(x, w) for x in L(a[0], n, w)]
        return X.fabsb(a[0], w)
    if base == 'llvm.sqrt':
        if n:
            return [fsqrt(x, w) for x in L(a[0], n, w)]
        return fsqrt(a[0], w)
    RM = {'llvm.floor': 1, 'llvm.ceil': 2, 'llvm.trunc': 3, 'llvm.round': 5, 'llvm.rint': 0, 'llvm.nearbyint': 0,
          'llvm.roundeven': 0}
    if base in RM:
        if n:
            return [fround(x, RM[base], w) for x in L(a[0], n, w)]
        return fround(a[0], RM[base], w)
    if base == 'llvm.is':
        if n:
            return [fpclass(x, a[1], aw) for x in L(a[0], an, aw)]
        return fpclass(a[0], a[1], aw)
    if base == 'llvm.fmuladd':
        if n:
            return [fop('fadd', fop('fmul', x, y, w), z, w) for x, y, z in zip(L(a[0], n, w), L(a[1], n, w), L(a[2], n, w))]
        return fop('fadd', fop('fmul', a[0], a[1], w), a[2], w)
    if base == 'llvm.usub' and parts[2] == 'sat':
        return X.ite(X.ult(a[0], a[1], w), 0, X.sub(a[0], a[1], w), w)
    if base == 'llvm.uadd' and parts[2] == 'sat':
        s = X.add(a[0], a[1], w)
        return X.ite(X.ult(s, a[0], w), MASK[w], s, w)
    if base in ('llvm.uadd', 'llvm.usub', 'llvm.sadd', 'llvm.ssub', 'llvm.umul', 'llvm.smul') and parts[2] == 'with':
        x, y = a[0], a[1]
        ext = X.zext if parts[1][0] == 'u' else X.sext
        op = {'add': X.add, 'sub': X.sub, 'mul': X.mul}[parts[1][1:]]
        w = aw
        r = op(x, y, w)
        wide = op(ext(x, w, 2 * w), ext(y, w, 2 * w), 2 * w)
        return (r, X.bnot(X.eq(wide, ext(r, w, 2 * w), 2 * w)))
    if base == 'llvm.ctpop':
        if type(a[0]) is int:
            return bin(a[0]).count('1')
        r = 0
        for i in range(aw):
            r = X.add(r, X.zext(X.extract(a[0], i, i), 1, w), w)
        return r
    if base in ('llvm.cttz', 'llvm.ctlz'):
        r = aw
        rng = range(aw - 1, -1, -1) if base == 'llvm.cttz' else range(aw)
        for i in rng:
            r = X.ite(X.extract(a[0], i, i), i if base == 'llvm.cttz' else aw - 1 - i, r, w)
        return r
    if base == 'llvm.bswap':
        k = aw // 8
        return X.concat([(X.extract(a[0], 8 * i + 7, 8 * i), 8) for i in range(k - 1, -1, -1)])
    if base in ('llvm.fshl', 'llvm.fshr'):
        c = X.concat([(a[1], w), (a[0], w)])
        if base == 'llvm.fshl':
            s = X.lshr(X.shl(c, X.urem(X.zext(a[2], w, 2 * w), w, 2 * w), 2 * w), w, 2 * w)
        else:
            s = X.lshr(c, X.urem(X.zext(a[2], w, 2 * w), w, 2 * w), 2 * w)
        return X.extract(s, w - 1, 0)
    if base == 'llvm.vector':
        kind = parts[3]
        l = L(a[-1] if kind in ('fadd', 'fmul') else a[0], an, aw)
        if kind in ('fadd', 'fmul'):
            r = a[0]
            l = L(a[1], 0, w)
            for x in l:
                r = fop(kind, r, x, w)
            return r
        fn = dict(FB, smin=smin, smax=smax, umin=umin, umax=umax)[kind]
        r = l[0]
        for x in l[1:]:
            r = fn(r, x, aw)
        return r
    if base == 'llvm.copysign':
        f = lambda x, y: X.or_(X.and_(x, MASK[w - 1], w), X.and_(y, 1 << (w - 1), w), w)
        if n:
            return [f(x, y) for x, y in zip(L(a[0], n, w), L(a[1], n, w))]
        return f(a[0], a[1])
    if base in ('llvm.minnum', 'llvm.maxnum'):
        return X.uf(parts[1], w, *ufargs(w, a[0], a[1]))
    if base in ('llvm.exp2', 'llvm.exp', 'llvm.log', 'llvm.log2', 'llvm.log10', 'llvm.sin', 'llvm.cos', 'llvm.pow',
                'llvm.ldexp'):
        if n:
            return [X.uf(parts[1], w, *ufargs(w, x)) for x in L(a[0], n, w)]
        return X.uf(parts[1], w, *ufargs(w, *a))
    if base == 'llvm.masked':
        if parts[2] == 'load':
            mk = L(a[2], n, 1)
            pt = L(a[3], n, w)
            return [E.gload(st, m, X.add(a[0], i * w // 8, 64), w // 8, p) for i, (m, p) in enumerate(zip(mk, pt))]
        if parts[2] == 'store':
            mk = L(a[3], an, 1)
            for i, (m, v) in enumerate(zip(mk, L(a[0], an, aw))):
                E.gstore(st, m, X.add(a[1], i * aw // 8, 64), v, aw // 8)
            return None
    if base == 'llvm.x86':
        k = '.'.join(parts[3:])
        if k in ('min.ps.256', 'min.pd.256', 'min.ps', 'min.pd'):
            return [X.ite(X.flt(x, y, w), x, y, w) for x, y in zip(L(a[0], n, w), L(a[1], n, w))]
        if k in ('max.ps.256', 'max.pd.256', 'max.ps', 'max.pd'):
            return [X.ite(X.flt(y, x, w), x, y, w) for x, y in zip(L(a[0], n, w), L(a[1], n, w))]
        if k in ('round.ps.256', 'round.pd.256', 'round.ps', 'round.pd'):
            return [fround(x, a[1] & 3, w) for x in L(a[0], n, w)]
        if k in ('cvt.ps2dq.256', 'cvtps2dq'):
            return [fcvt(x, 'near') for x in L(a[0], n, w)]
        if k in ('cvtt.ps2dq.256', 'cvttps2dq'):
            return [fcvt(x, 'trunc') for x in L(a[0], n, w)]
        if k.startswith(('packsswb', 'packssdw', 'packuswb', 'packusdw')):
            pk = satpack if k.startswith('packss') else usatpack
            x, y = L(a[0], an, aw), L(a[1], an, aw)
            per = 128 // aw
            out = []
            for i in range(0, an, per):
                out += [pk(v, aw, w) for v in x[i:i + per]]
                out += [pk(v, aw, w) for v in y[i:i + per]]
            return out
        if k.startswith('pmovmskb') or k.startswith('movmsk'):
            return X.concat([(X.extract(v, aw - 1, aw - 1), 1) for v in L(a[0], an, aw)] + ([(0, w - an)] if w > an else []))
        if k.startswith('maskload'):
            mk = L(a[1], n, w)
            return [E.gload(st, X.extract(m, w - 1, w - 1), X.add(a[0], i * w // 8, 64), w // 8, 0) for i, m in enumerate(mk)]
        if k.startswith('maskstore'):
            mk = L(a[1], 0, 0) if type(a[1]) is list else None
            mw = 32 if '.ps' in k or k == 'maskstore.d.256' or k == 'maskstore.d' else 64
            if mk is None:
                mk = relane(a[1].l, a[1].w, mw)
            v = a[2]
            v = v if type(v) is list else relane(v.l, v.w, mw)
            for i, (m, x) in enumerate(zip(mk, v)):
                E.gstore(st, X.extract(m, mw - 1, mw - 1), X.add(a[0], i * mw // 8, 64), x, mw // 8)
            return None
        if k.startswith('gather'):
            it = k.split('.')[1]
            iw = {'d': 32, 'q': 64}[it]
            src = L(a[0], n, w)
            idx = a[2] if type(a[2]) is list else relane(a[2].l, a[2].w, iw)
            mk = L(a[3], n, w)
            sc = a[4]
            return [E.gload(st, X.extract(m, w - 1, w - 1), X.add(a[1], X.mul(X.sext(i, iw, 64), sc, 64), 64), w // 8, s)
                    for s, i, m in zip(src, idx, mk)]
        if k == 'permps' or k == 'permd':
            idx = a[1] if type(a[1]) is list else relane(a[1].l, a[1].w, 32)
            src = L(a[0], n, w)
            out = []
            for i in idx:
                i = X.extract(i, 2, 0)
                if type(i) is int:
                    out.append(src[i])
                else:
                    r = src[0]
                    for q in range(1, 8):
                        r = X.ite(X.eq(i, q, 3), src[q], r, w)
                    out.append(r)
            return out
        if k == 'pshuf.b' or k == 'pshuf.b.128':
            idx = a[1] if type(a[1]) is list else relane(a[1].l, a[1].w, 8)
            src = L(a[0], n, w)
            out = []
            for j, i in enumerate(idx):
                if type(i) is not int:
                    raise E.Unsupported('symbolic pshufb')
                out.append(0 if i & 0x80 else src[(j & ~15) + (i & 15)])
            return out
        if k.startswith('blendv'):
            m = L(a[2], n, w)
            return [X.ite(X.extract(q, w - 1, w - 1), y, x, w) for x, y, q in zip(L(a[0], n, w), L(a[1], n, w), m)]
        if k.startswith('cmp.p') and 'cmp.p' in k:
            preds = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord']
            imm = a[2]
            full = {0: 'oeq', 1: 'olt', 2: 'ole', 3: 'uno', 4: 'une', 5: 'uge', 6: 'ugt', 7: 'ord', 8: 'ueq', 9: 'ult',
                    10: 'ule', 11: 'false', 12: 'one', 13: 'oge', 14: 'ogt', 15: 'true'}[imm & 15]
            return [X.sext(fcmp(full, x, y, w), 1, w) for x, y in zip(L(a[0], n, w), L(a[1], n, w))]
        if k == 'ps' or name == 'llvm.x86.rdtsc':
            pass
        if name == 'llvm.x86.rdtsc':
            return E.rdtsc(st)
        m = {'psllv': X.shl, 'psrlv': X.lshr, 'psrav': X.ashr}.get(k.split('.')[0])
        if m:
            return [m(x, y, w) for x, y in zip(L(a[0], n, w), L(a[1], n, w))]
    raise E.Unsupported('intrinsic ' + name)


def fcvt(x, mode):
    if type(x) is int:
        f = b2f(x, 32)
        if f != f or abs(f) >= 2147483648.0:
            return 0x80000000
        return (round(f) if mode == 'near' else int(f)) & 0xffffffff
    return X.uf('cvt_' + mode, 32, x)
