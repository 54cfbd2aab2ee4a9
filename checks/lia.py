"""Exact translation of bit-vector expressions into linear integer arithmetic.

Every expression of width w becomes an integer term together with an interval that contains it; the term is congruent to the
bit-vector value modulo 2**w, and is reduced (mod 2**w) exactly where an operation needs the value itself and the interval does
not already show that it is in range.  No approximation is involved: whatever cannot be expressed (products of unknowns, mixed
bitwise operations) raises NotLinear and the caller uses the bit-vector solver instead."""
import z3
from engine import ex as X


class NotLinear(Exception):
    pass


class LIA(object):
    def __init__(self):
        self.cache = {}
        self.side = {}        # variable name -> (term, width)

    # a triple (term, lo, hi); ints are (int, v, v)
    def canon(self, t, w):
        """the unsigned value"""
        z, lo, hi = t
        m = 1 << w
        if type(z) is int:
            v = z % m
            return v, v, v
        if 0 <= lo and hi < m:
            return t
        if lo // m == hi // m:
            k = (lo // m) * m
            return z - k, lo - k, hi - k
        if hi - lo < m and lo // m + 1 == hi // m:
            b = (hi // m) * m
            return z3.If(z >= b, z - b, z - (b - m)), 0, m - 1
        return z % m, 0, m - 1

    def signed(self, t, w):
        z, lo, hi = t
        h = 1 << (w - 1)
        if -h <= lo and hi < h:
            return t
        if type(z) is int:
            v = (z + h) % (2 * h) - h
            return v, v, v
        c = self.canon((z + h, lo + h, hi + h), w)
        return (c[0] - h, c[1] - h, c[2] - h)

    def small(self, t, w):
        if t[2] - t[1] > (1 << (w + 8)):
            return self.canon(t, w)
        return t

    def num(self, x, w):
        if type(x) is int:
            # constants near 2**w stand for negative numbers in sums
            v = x if x < (1 << (w - 1)) else x - (1 << w)
            return v, v, v
        return self.cache[x]

    def boo(self, x):
        if type(x) is int:
            return z3.BoolVal(bool(x))
        return self.cache[x]

    def asnum(self, x, w):
        """operand of a numeric operation; a width-1 expression is a Bool here"""
        if type(x) is not int and x.w == 1:
            return z3.If(self.cache[x], z3.IntVal(1), z3.IntVal(0)), 0, 1
        if type(x) is int and w == 1:
            return x, x, x
        return self.num(x, w)

    def conv(self, n):
        if type(n) is int:
            return z3.BoolVal(bool(n))
        stack = [n]
        c = self.cache
        while stack:
            x = stack[-1]
            if x in c:
                stack.pop()
                continue
            todo = [y for y in X.children(x) if type(y) is not int and y not in c]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            c[x] = self.one(x)
        return c[n]

    def one(self, n):
        op, w, a = n.op, n.w, n.a
        if op == 'var':
            if w == 1:
                return z3.Bool(a[0])
            z = z3.Int(a[0])
            self.side[a[0]] = (z, w)
            return z, 0, (1 << w) - 1
        if op == 'bnot':
            return z3.Not(self.boo(a[0]))
        if op == 'band':
            return z3.And(self.boo(a[0]), self.boo(a[1]))
        if op == 'bor':
            return z3.Or(self.boo(a[0]), self.boo(a[1]))
        if op == 'bxor':
            return z3.Xor(self.boo(a[0]), self.boo(a[1]))
        if op == 'ite':
            if w == 1:
                return z3.If(self.boo(a[0]), self.boo(a[1]), self.boo(a[2]))
            p, q = self.num(a[1], w), self.num(a[2], w)
            return z3.If(self.boo(a[0]), self.z(p), self.z(q)), min(p[1], q[1]), max(p[2], q[2])
        if op == 'vs':
            vals = [(v if v < (1 << (w - 1)) or w == 1 else v - (1 << w), g) for v, g in a]
            r = z3.IntVal(vals[0][0])
            for v, g in vals[1:]:
                r = z3.If(self.boo(g), z3.IntVal(v), r)
            if w == 1:
                return r == 1
            return r, min(v for v, _ in vals), max(v for v, _ in vals)
        if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            cw = a[0].w if type(a[0]) is not int else a[1].w
            p, q = self.asnum(a[0], cw), self.asnum(a[1], cw)
            if op == 'eq':
                lo, hi = p[1] - q[2], p[2] - q[1]
                if -(1 << cw) < lo and hi < (1 << cw):
                    return self.z(p) == self.z(q)
                return self.z(self.canon(p, cw)) == self.z(self.canon(q, cw))
            f = self.canon if op[0] == 'u' else self.signed
            p, q = f(p, cw), f(q, cw)
            return self.z(p) < self.z(q) if op[1:] == 'lt' else self.z(p) <= self.z(q)
        if w == 1 and op != 'extract':
            raise NotLinear(op)
        if op == 'add':
            p, q = self.num(a[0], w), self.num(a[1], w)
            return self.small((p[0] + q[0], p[1] + q[1], p[2] + q[2]), w)
        if op == 'neg':
            p = self.num(a[0], w)
            return -p[0], -p[2], -p[1]
        if op == 'not':
            p = self.num(a[0], w)
            return -1 - p[0], -1 - p[2], -1 - p[1]
        if op == 'mul':
            p, q = self.num(a[0], w), self.num(a[1], w)
            if type(p[0]) is int:
                p, q = q, p
            if type(q[0]) is not int:
                raise NotLinear('mul')
            k = q[0]
            l, h = p[1] * k, p[2] * k
            return self.small((p[0] * k, min(l, h), max(l, h)), w)
        if op == 'shl':
            if type(a[1]) is not int:
                raise NotLinear('shl')
            p = self.num(a[0], w)
            k = 1 << a[1]
            return self.small((p[0] * k, p[1] * k, p[2] * k), w)
        if op in ('lshr', 'udiv'):
            if type(a[1]) is not int or not a[1]:
                raise NotLinear(op)
            p = self.canon(self.num(a[0], w), w)
            k = 1 << a[1] if op == 'lshr' else a[1]
            return self.div(p, k)
        if op == 'ashr':
            if type(a[1]) is not int:
                raise NotLinear(op)
            return self.div(self.signed(self.num(a[0], w), w), 1 << a[1])
        if op == 'urem':
            if type(a[1]) is not int or not a[1]:
                raise NotLinear(op)
            return self.mod(self.canon(self.num(a[0], w), w), a[1])
        if op in ('sdiv', 'srem'):
            if type(a[1]) is not int or not 0 < a[1] < (1 << (w - 1)):
                raise NotLinear(op)
            p = self.signed(self.num(a[0], w), w)
            if p[1] < 0:
                raise NotLinear(op)
            return self.div(p, a[1]) if op == 'sdiv' else self.mod(p, a[1])
        if op == 'and':
            x, m = a
            if type(x) is int:
                x, m = m, x
            if type(m) is not int:
                raise NotLinear('and')
            p = self.num(x, w)
            if m & (m + 1) == 0:
                return self.mod(p, m + 1)
            k = (~m) & ((1 << w) - 1)
            if k & (k + 1) == 0:
                q = self.mod(p, k + 1)
                return p[0] - q[0], p[1] - q[2], p[2]
            low = m & -m
            t = m // low
            if t & (t + 1) == 0:
                q = self.mod(self.div(self.canon(p, w), low), t + 1)
                return q[0] * low, q[1] * low, q[2] * low
            raise NotLinear('and')
        if op == 'zext':
            iw = a[0].w
            if iw == 1:
                return self.asnum(a[0], 1)
            return self.canon(self.num(a[0], iw), iw)
        if op == 'sext':
            iw = a[0].w
            if iw == 1:
                return z3.If(self.cache[a[0]], z3.IntVal(-1), z3.IntVal(0)), -1, 0
            return self.signed(self.num(a[0], iw), iw)
        if op == 'extract':
            iw = a[0].w
            p = self.num(a[0], iw)
            hi, lo = a[1], a[2]
            if lo == 0:
                r = self.mod(p, 1 << (hi + 1)) if hi > 0 or True else p
            else:
                r = self.mod(self.div(self.canon(p, iw), 1 << lo), 1 << (hi - lo + 1))
            if w == 1:
                return self.z(r) == 1
            return r
        if op == 'concat':
            s = 0
            r, lo, hi = 0, 0, 0
            for v, pw in a:
                p = self.canon(self.asnum(v, pw) if type(v) is not int else (v, v, v), pw)
                r, lo, hi = r + p[0] * (1 << s), lo + (p[1] << s), hi + (p[2] << s)
                s += pw
            return r, lo, hi
        raise NotLinear(op)

    @staticmethod
    def z(t):
        return z3.IntVal(t[0]) if type(t[0]) is int else t[0]

    @staticmethod
    def div(t, k):
        z, lo, hi = t
        if k == 1:
            return t
        if type(z) is int:
            return z // k, z // k, z // k
        if lo // k == hi // k:
            return lo // k, lo // k, lo // k
        return z / k, lo // k, hi // k

    @staticmethod
    def mod(t, k):
        z, lo, hi = t
        if type(z) is int:
            return z % k, z % k, z % k
        if 0 <= lo and hi < k:
            return t
        if lo // k == hi // k:
            b = (lo // k) * k
            return z - b, lo - b, hi - b
        return z % k, 0, k - 1


SHARED = LIA()


def solve(conds, want=None, timeout=10000):
    """-> (verdict, model) ; raises NotLinear"""
    L = SHARED
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    vs = set()
    zs = [L.conv(c) for c in conds]
    for c in list(conds) + ([want] if want is not None else []):
        if type(c) is not int:
            vs |= X.vars_of(c)
    for nm, w in vs:
        if w > 1:
            z, _ = L.side.get(nm) or (z3.Int(nm), w)
            s.add(z >= 0, z < (1 << w))
    for z in zs:
        s.add(z)
    r = str(s.check())
    if r != 'sat':
        return r, None
    m = s.model()
    env = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            env[d.name()] = (1 if z3.is_true(v) else 0) if z3.is_bool(v) else v.as_long()
    if want is not None:
        env['@'] = X.evaluate(want, env)
    return r, env
