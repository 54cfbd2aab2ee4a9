"""NumPy's element semantics for the hooked ufuncs, as expressions over bit patterns.

spec(name, sig, ins) -> output expression, or None when NumPy's result is a numeric approximation we do not
define (transcendentals), in which case NumPy's own loop is an uninterpreted function of its operands."""
from engine import ex as X
from engine.ex import MASK
from engine.vec import fop, fcmp, fround, fsqrt, fneg, ufargs
from engine.capi import ELSIZE, KIND

CANON = {'abs': 'absolute', 'bitwise_not': 'invert', 'true_divide': 'divide'}


def w_of(t):
    return ELSIZE[t] * 8


def b8(c):
    return X.zext(c, 1, 8)


def spec(name, sig, ins):
    name = CANON.get(name, name)
    t = sig[0]
    w = w_of(t)
    k = KIND[t]
    fl = k == 'f'
    sg = k == 'i'
    a = ins[0]
    b = ins[1] if len(ins) > 1 else None
    lt = (lambda x, y: X.flt(x, y, w)) if fl else ((lambda x, y: X.slt(x, y, w)) if sg else (lambda x, y: X.ult(x, y, w)))
    eq = (lambda x, y: X.feq(x, y, w)) if fl else (lambda x, y: X.eq(x, y, w))
    if name in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
        if t == 0:
            a = X.bnot(X.eq(a, 0, 8))
            b = X.bnot(X.eq(b, 0, 8))
            lt = lambda x, y: X.band(X.bnot(x), y)
            eq = lambda x, y: X.bnot(X.bxor(x, y))
        r = {'equal': lambda: eq(a, b), 'not_equal': lambda: X.bnot(eq(a, b)), 'less': lambda: lt(a, b),
             'greater': lambda: lt(b, a), 'less_equal': lambda: X.bor(lt(a, b), eq(a, b)),
             'greater_equal': lambda: X.bor(lt(b, a), eq(a, b))}[name]()
        return b8(r)
    if t == 0:
        p = X.bnot(X.eq(a, 0, 8))
        q = X.bnot(X.eq(b, 0, 8)) if b is not None else None
        if name in ('add', 'maximum', 'logical_or', 'bitwise_or'):
            return b8(X.bor(p, q))
        if name in ('multiply', 'minimum', 'logical_and', 'bitwise_and'):
            return b8(X.band(p, q))
        if name in ('bitwise_xor', 'logical_xor'):
            return b8(X.bxor(p, q))
        if name in ('invert', 'logical_not'):
            return b8(X.bnot(p))
        if name == 'absolute':
            return b8(p)
        if name in ('isnan', 'isinf'):
            return 0
        if name == 'isfinite':
            return 1
        return None
    if name in ('add', 'subtract', 'multiply'):
        if fl:
            return fop({'add': 'fadd', 'subtract': 'fsub', 'multiply': 'fmul'}[name], a, b, w)
        return {'add': X.add, 'subtract': X.sub, 'multiply': X.mul}[name](a, b, w)
    if name == 'divide' and fl:
        return fop('fdiv', a, b, w)
    if name == 'floor_divide' and fl:
        one = {32: 0x3f800000, 64: 0x3ff0000000000000}[w]
        half = {32: 0x3f000000, 64: 0x3fe0000000000000}[w]
        mod = X.uf('fmod', w, *ufargs(w, a, b))
        quo = fop('fdiv', a, b, w)
        div = fop('fdiv', fop('fsub', a, mod, w), b, w)
        adj = X.band(X.bnot(X.feq(mod, 0, w)), X.bxor(X.flt(b, 0, w), X.flt(mod, 0, w)))
        div = X.ite(adj, fop('fsub', div, one, w), div, w)
        fd = fround(div, 1, w)
        fd = X.ite(X.flt(half, fop('fsub', div, fd, w), w), fop('fadd', fd, one, w), fd, w)
        zero = X.and_(quo, 1 << (w - 1), w)
        r = X.ite(X.feq(div, 0, w), zero, fd, w)
        return X.ite(X.feq(b, 0, w), quo, r, w)
    if name == 'minimum':
        c = X.bor(lt(a, b), X.fisnan(a, w)) if fl else lt(a, b)
        return X.ite(c, a, b, w)
    if name == 'maximum':
        c = X.bor(lt(b, a), X.fisnan(a, w)) if fl else lt(b, a)
        return X.ite(c, a, b, w)
    if name == 'bitwise_and':
        return X.and_(a, b, w)
    if name == 'bitwise_or':
        return X.or_(a, b, w)
    if name == 'bitwise_xor':
        return X.xor(a, b, w)
    if name == 'invert':
        return X.not_(a, w)
    if name == 'left_shift':
        return X.ite(X.ult(b, w, w), X.shl(a, b, w), 0, w)
    if name == 'right_shift':
        if sg:
            return X.ite(X.ult(b, w, w), X.ashr(a, b, w), X.ite(X.slt(a, 0, w), MASK[w], 0, w), w)
        return X.ite(X.ult(b, w, w), X.lshr(a, b, w), 0, w)
    if name == 'logical_and':
        return b8(X.band(X.bnot(eq(a, 0)), X.bnot(eq(b, 0))))
    if name == 'logical_or':
        return b8(X.bor(X.bnot(eq(a, 0)), X.bnot(eq(b, 0))))
    if name == 'logical_not':
        return b8(eq(a, 0))
    if name == 'negative':
        return fneg(a, w) if fl else X.neg(a, w)
    if name == 'absolute':
        if fl:
            return X.fabsb(a, w)
        if sg:
            return X.ite(X.slt(a, 0, w), X.neg(a, w), a, w)
        return a
    if name == 'sign':
        if fl:
            one = {32: 0x3f800000, 64: 0x3ff0000000000000}[w]
            return X.ite(X.flt(0, a, w), one, X.ite(X.flt(a, 0, w), one | 1 << (w - 1), X.ite(X.feq(a, 0, w), 0, a, w), w), w)
        if sg:
            return X.ite(X.slt(0, a, w), 1, X.ite(X.slt(a, 0, w), MASK[w], 0, w), w)
        return X.ite(X.eq(a, 0, w), 0, 1, w)
    if name == 'isnan':
        return b8(X.fisnan(a, w)) if fl else 0
    if name == 'isinf':
        return b8(X.eq(X.fabsb(a, w), X.finf(w), w)) if fl else 0
    if name == 'isfinite':
        return b8(X.ult(X.fabsb(a, w), X.finf(w), w)) if fl else 1
    if name == 'signbit':
        return b8(X.extract(a, w - 1, w - 1))
    if fl and name in ('floor', 'ceil', 'trunc', 'rint'):
        return fround(a, {'floor': 1, 'ceil': 2, 'trunc': 3, 'rint': 0}[name], w)
    if fl and name == 'sqrt':
        return fsqrt(a, w)
    return None


def nploop(name, sig, ins):
    """what NumPy's own loop stores"""
    r = spec(name, sig, ins)
    if r is None:
        w = w_of(sig[0])
        r = X.uf('np_%s_%d' % (CANON.get(name, name), sig[0]), w_of(sig[-1]), *ufargs(w, *ins))
    return r


ZERO_SIGN_FREE = {'minimum', 'maximum'}


def same(name, t, got, want):
    """boolean expression: the stored value is acceptable for the wanted one (t: output dtype)"""
    w = w_of(t)
    e = X.eq(got, want, w)
    if KIND[t] == 'f':
        e = X.bor(e, X.band(X.fisnan(got, w), X.fisnan(want, w)))
        if name in ZERO_SIGN_FREE:
            e = X.bor(e, X.band(X.eq(X.fabsb(got, w), 0, w), X.eq(X.fabsb(want, w), 0, w)))
    return e


def oldloop(record=None):
    """model of NumPy's original inner loop for (name, sig), used for fall-backs"""
    def h(E, st, name, sig, args):
        a, dims, steps, inner = args
        n = E.load(st, dims, 8)
        k = len(sig)
        p = [E.load(st, a + 8 * i, 8) for i in range(k)]
        s = [E.load(st, steps + 8 * i, 8) for i in range(k)]
        if record is not None:
            record(name, sig, p, n, s, inner)
        if type(n) is not int:
            raise E.Unsupported('symbolic length in numpy loop')
        n = X.sx(n, 64)
        es = [ELSIZE[t] for t in sig]
        p = list(p)
        for i in range(n):
            ins = [E.load(st, p[j], es[j]) for j in range(k - 1)]
            E.store(st, p[k - 1], nploop(name, sig, ins), es[k - 1])
            for j in range(k):
                p[j] = X.add(p[j], s[j], 64)
        return None
    return h
