"""Hash-consed bit-vector expression DAG used by the symbolic executor.

A value is either a Python int (concrete, already masked to its width) or a Node.
Floats are carried as their IEEE bit patterns; float arithmetic is an uninterpreted
function of the bit patterns ('uf' nodes, congruence only), float comparison is exact
(lowered to bit-vector logic when handed to the solver).

op 'vs' is a value summary: a small set of concrete values with mutually exclusive,
exhaustive guards, produced when control-flow paths are merged."""
import z3

MASK = [(1 << i) - 1 for i in range(0, 1100)]
VS_LIMIT = 400
_tab = {}
_count = [0]


class Node(object):
    __slots__ = ('op', 'w', 'a', 'id', 'z')

    def __repr__(self):
        return show(self, 4)


def show(n, d=3):
    if isinstance(n, int):
        return hex(n) if n > 9 else str(n)
    if n.op == 'var':
        return str(n.a[0])
    if d == 0:
        return '#%d' % n.id
    if n.op == 'vs':
        return 'vs{%s}' % ','.join('%d' % v for v, g in n.a[:6])
    return '%s%d(%s)' % (n.op, n.w, ','.join(show(x, d - 1) if isinstance(x, (int, Node)) else str(x) for x in n.a))


def mk(op, w, *a):
    k = (op, w) + a
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.w = w
        n.a = a
        n.z = None
        _count[0] += 1
        n.id = _count[0]
        _tab[k] = n
    return n


def reset():
    _tab.clear()


# ints and Nodes hash distinctly: Node default identity hash; ints by value.

def var(name, w):
    return mk('var', w, name)


_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return mk('var', w, '%s!%d' % (name, _fresh[0]))


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------- booleans (w == 1)

def bnot(a):
    if type(a) is int:
        return 1 - a
    if a.op == 'bnot':
        return a.a[0]
    return mk('bnot', 1, a)


def band(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    if a is b:
        return a
    if (a.op == 'bnot' and a.a[0] is b) or (b.op == 'bnot' and b.a[0] is a):
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('band', 1, a, b)


def bor(a, b):
    if type(a) is int:
        return 1 if a else b
    if type(b) is int:
        return 1 if b else a
    if a is b:
        return a
    if (a.op == 'bnot' and a.a[0] is b) or (b.op == 'bnot' and b.a[0] is a):
        return 1
    if a.id > b.id:
        a, b = b, a
    return mk('bor', 1, a, b)


def bxor(a, b):
    if type(a) is int:
        return bnot(b) if a else b
    if type(b) is int:
        return bnot(a) if b else a
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('bxor', 1, a, b)


def balls(xs):
    r = 1
    for x in xs:
        r = band(r, x)
    return r


def banys(xs):
    r = 0
    for x in xs:
        r = bor(r, x)
    return r


# ---------------- value summaries

def vs_from(d, w):
    """d: dict value -> guard"""
    items = [(v, g) for v, g in d.items() if not (type(g) is int and g == 0)]
    if len(items) == 1:
        return items[0][0]
    items.sort(key=lambda t: t[0])
    if len(items) == 2 and w == 1:
        return items[1][1]
    return mk('vs', w, *items)


def vsitems(n):
    if type(n) is int:
        return ((n, 1),)
    if n.op == 'vs':
        return n.a
    if n.w == 1:
        return ((0, bnot(n)), (1, n))
    return None


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b:
        return a
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb and a == b:
        return a
    if w == 1:
        if ta:
            return bor(c, b) if a else band(bnot(c), b)
        if tb:
            return bor(bnot(c), a) if b else band(c, a)
        if a is bnot(b):
            return bnot(bxor(c, a))
        return mk('ite', 1, c, a, b)
    if (ta or a.op == 'vs') and (tb or b.op == 'vs'):
        ia = ((a, 1),) if ta else a.a
        ib = ((b, 1),) if tb else b.a
        if len(ia) + len(ib) <= VS_LIMIT:
            d = {}
            for v, g in ia:
                d[v] = band(c, g)
            nc = bnot(c)
            for v, g in ib:
                g = band(nc, g)
                if v in d:
                    o = d[v]
                    # (c&ga)|(!c&gb)
                    if type(g) is not int and g.op == 'bnot' and False:
                        pass
                    d[v] = bor(o, g)
                else:
                    d[v] = g
            return vs_from(d, w)
    if c.op == 'bnot':
        return mk('ite', w, c.a[0], b, a)
    if not ta and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if not tb and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', w, c, a, b)


def vmap1(n, f, w):
    d = {}
    for v, g in n.a:
        r = f(v)
        if r in d:
            d[r] = bor(d[r], g)
        else:
            d[r] = g
    return vs_from(d, w)


def vmap2(a, b, f, w):
    """returns None if not applicable"""
    if type(a) is int:
        ia = ((a, 1),)
    elif a.op == 'vs':
        ia = a.a
    else:
        return None
    if type(b) is int:
        ib = ((b, 1),)
    elif b.op == 'vs':
        ib = b.a
    else:
        return None
    if len(ia) * len(ib) > VS_LIMIT * 4:
        return None
    d = {}
    for va, ga in ia:
        for vb, gb in ib:
            g = band(ga, gb)
            if type(g) is int and g == 0:
                continue
            r = f(va, vb)
            if r in d:
                d[r] = bor(d[r], g)
            else:
                d[r] = g
    if len(d) > VS_LIMIT:
        return None
    if not d:
        return None
    return vs_from(d, w)


# ---------------- arithmetic

def isvs(a):
    return type(a) is int or a.op == 'vs'


def add(a, b, w):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return (a + b) & MASK[w]
    if ta:
        a, b = b, a
        ta, tb = tb, ta
    if tb:
        if b == 0:
            return a
        if a.op == 'vs':
            m = MASK[w]
            return mk('vs', w, *sorted(((v + b) & m, g) for v, g in a.a)) if w > 1 else add_(a, b, w)
        if a.op == 'add' and type(a.a[1]) is int:
            return add(a.a[0], (a.a[1] + b) & MASK[w], w)
        if w == 1:
            return bxor(a, b)
        return mk('add', w, a, b)
    if w == 1:
        return bxor(a, b)
    if a.op == 'vs' and b.op == 'vs':
        m = MASK[w]
        r = vmap2(a, b, lambda x, y: (x + y) & m, w)
        if r is not None:
            return r
    if a.op == 'add' and type(a.a[1]) is int:
        return add(add(a.a[0], b, w), a.a[1], w)
    if b.op == 'add' and type(b.a[1]) is int:
        return add(add(a, b.a[0], w), b.a[1], w)
    if a.id > b.id:
        a, b = b, a
    return mk('add', w, a, b)


def add_(a, b, w):
    return vmap1(a, lambda v: (v + b) & MASK[w], w)


def neg(a, w):
    if type(a) is int:
        return (-a) & MASK[w]
    if w == 1:
        return a
    if a.op == 'vs':
        return vmap1(a, lambda v: (-v) & MASK[w], w)
    if a.op == 'neg':
        return a.a[0]
    return mk('neg', w, a)


def sub(a, b, w):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return (a - b) & MASK[w]
    if tb:
        return add(a, (-b) & MASK[w], w)
    if a is b:
        return 0
    if ta and a == 0:
        return neg(b, w)
    return add(a, neg(b, w), w)


def mul(a, b, w):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return (a * b) & MASK[w]
    if ta:
        a, b = b, a
        ta, tb = tb, ta
    if tb:
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'vs':
            return vmap1(a, lambda v: (v * b) & MASK[w], w)
        if a.op == 'add' and type(a.a[1]) is int:
            return add(mul(a.a[0], b, w), (a.a[1] * b) & MASK[w], w)
        if a.op == 'mul' and type(a.a[1]) is int:
            return mul(a.a[0], (a.a[1] * b) & MASK[w], w)
        return mk('mul', w, a, b)
    if w == 1:
        return band(a, b)
    if a.op == 'vs' and b.op == 'vs':
        r = vmap2(a, b, lambda x, y: (x * y) & MASK[w], w)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('mul', w, a, b)


def cdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


def _div(op, f):
    def g(a, b, w):
        if type(a) is int and type(b) is int:
            if b == 0:
                return fresh('divzero', w)
            return f(a, b, w)
        if type(b) is int and b == 1 and op in ('udiv', 'sdiv'):
            return a
        if type(b) is int and b != 0 and a.op == 'vs':
            return vmap1(a, lambda v: f(v, b, w), w)
        return mk(op, w, a, b)
    return g


udiv = _div('udiv', lambda a, b, w: a // b)
urem = _div('urem', lambda a, b, w: a % b)
sdiv = _div('sdiv', lambda a, b, w: cdiv(sx(a, w), sx(b, w)) & MASK[w])
srem = _div('srem', lambda a, b, w: (sx(a, w) - sx(b, w) * cdiv(sx(a, w), sx(b, w))) & MASK[w])


def not_(a, w):
    if type(a) is int:
        return a ^ MASK[w]
    if w == 1:
        return bnot(a)
    if a.op == 'vs':
        return vmap1(a, lambda v: v ^ MASK[w], w)
    if a.op == 'not':
        return a.a[0]
    if a.op == 'sext' and a.a[0].w == 1:
        return sext(bnot(a.a[0]), 1, w)
    return mk('not', w, a)


def and_(a, b, w):
    if w == 1:
        return band(a, b)
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return a & b
    if ta:
        a, b = b, a
        ta, tb = tb, ta
    if tb:
        if b == 0:
            return 0
        if b == MASK[w]:
            return a
        if a.op == 'vs':
            return vmap1(a, lambda v: v & b, w)
        if a.op == 'and' and type(a.a[1]) is int:
            return and_(a.a[0], a.a[1] & b, w)
        if a.op == 'zext':
            iw = a.a[0].w
            return zext(and_(a.a[0], b & MASK[iw], iw), iw, w)
        if a.op == 'sext' and a.a[0].w == 1:
            return ite(a.a[0], b, 0, w)
        if a.op == 'concat':
            # push constant masks into the parts
            return _bw_concat(and_, a, b, w)
        # low mask -> zext(extract)
        if (b & (b + 1)) == 0:
            k = b.bit_length()
            return zext(extract(a, k - 1, 0), k, w)
        return mk('and', w, a, b)
    if a is b:
        return a
    if a.op == 'not' and a.a[0] is b or b.op == 'not' and b.a[0] is a:
        return 0
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return sext(and_(a.a[0], b.a[0], a.a[0].w), a.a[0].w, w)
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return zext(and_(a.a[0], b.a[0], a.a[0].w), a.a[0].w, w)
    if a.op == 'sext' and a.a[0].w == 1:
        return ite(a.a[0], b, 0, w)
    if b.op == 'sext' and b.a[0].w == 1:
        return ite(b.a[0], a, 0, w)
    if a.op == 'vs' and b.op == 'vs':
        r = vmap2(a, b, lambda x, y: x & y, w)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('and', w, a, b)


def _cparts(n):
    return n.a


def _bw_concat(f, a, b, w):
    """a is a concat node (parts low-to-high, each (value,width)); b is const"""
    parts = []
    sh = 0
    for v, pw in a.a:
        parts.append((f(v, (b >> sh) & MASK[pw], pw), pw))
        sh += pw
    return concat(parts)


def or_(a, b, w):
    if w == 1:
        return bor(a, b)
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return a | b
    if ta:
        a, b = b, a
        ta, tb = tb, ta
    if tb:
        if b == 0:
            return a
        if b == MASK[w]:
            return b
        if a.op == 'vs':
            return vmap1(a, lambda v: v | b, w)
        if a.op == 'concat':
            return _bw_concat(or_, a, b, w)
        return mk('or', w, a, b)
    if a is b:
        return a
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return sext(or_(a.a[0], b.a[0], a.a[0].w), a.a[0].w, w)
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return zext(or_(a.a[0], b.a[0], a.a[0].w), a.a[0].w, w)
    if a.op == 'vs' and b.op == 'vs':
        r = vmap2(a, b, lambda x, y: x | y, w)
        if r is not None:
            return r
    # disjoint concat merging
    pa, pb = _aspieces(a), _aspieces(b)
    if pa is not None and pb is not None:
        r = _orpieces(pa, pb, w)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('or', w, a, b)


def _aspieces(n):
    if n.op == 'concat':
        return n.a
    if n.op == 'zext':
        return ((n.a[0], n.a[0].w), (0, n.w - n.a[0].w))
    return None


def _cut(ps):
    s = 0
    r = []
    for v, pw in ps:
        s += pw
        r.append(s)
    return r


def _orpieces(pa, pb, w):
    cuts = sorted(set(_cut(pa) + _cut(pb)))
    out = []
    lo = 0

    def piece(ps, lo, hi):
        s = 0
        for v, pw in ps:
            if s <= lo and hi <= s + pw:
                return extract(v, hi - 1 - s, lo - s) if (s != lo or hi != s + pw) else v
            s += pw
        return None
    for hi in cuts:
        x = piece(pa, lo, hi)
        y = piece(pb, lo, hi)
        if type(x) is int and x == 0:
            out.append((y, hi - lo))
        elif type(y) is int and y == 0:
            out.append((x, hi - lo))
        else:
            return None
        lo = hi
    return concat(out)


def xor(a, b, w):
    if w == 1:
        return bxor(a, b)
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return a ^ b
    if ta:
        a, b = b, a
        ta, tb = tb, ta
    if tb:
        if b == 0:
            return a
        if b == MASK[w]:
            return not_(a, w)
        if a.op == 'vs':
            return vmap1(a, lambda v: v ^ b, w)
        if a.op == 'zext' and b <= MASK[a.a[0].w]:
            return zext(xor(a.a[0], b, a.a[0].w), a.a[0].w, w)
        if a.op == 'concat':
            return _bw_concat(xor, a, b, w)
        if a.op == 'xor' and type(a.a[1]) is int:
            return xor(a.a[0], a.a[1] ^ b, w)
        return mk('xor', w, a, b)
    if a is b:
        return 0
    if a.op == 'vs' and b.op == 'vs':
        r = vmap2(a, b, lambda x, y: x ^ y, w)
        if r is not None:
            return r
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return sext(xor(a.a[0], b.a[0], a.a[0].w), a.a[0].w, w)
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return zext(xor(a.a[0], b.a[0], a.a[0].w), a.a[0].w, w)
    if a.id > b.id:
        a, b = b, a
    return mk('xor', w, a, b)


def shl(a, b, w):
    if type(b) is int:
        if b >= w:
            return 0
        if b == 0:
            return a
        if type(a) is int:
            return (a << b) & MASK[w]
        if a.op == 'vs':
            return vmap1(a, lambda v: (v << b) & MASK[w], w)
        if a.op in ('add', 'mul', 'neg'):
            return mul(a, 1 << b, w)
        if a.op in ('sext', 'var') and w == 64:
            return mul(a, 1 << b, w)
        if b % 8 == 0 or a.op == 'concat':
            return concat([(0, b), (extract(a, w - 1 - b, 0), w - b)])
        return mul(a, 1 << b, w)
    if isvs(a) and isvs(b):
        r = vmap2(a, b, lambda x, y: (x << y) & MASK[w] if y < w else 0, w)
        if r is not None:
            return r
    return mk('shl', w, a, b)


def lshr(a, b, w):
    if type(b) is int:
        if b >= w:
            return 0
        if b == 0:
            return a
        if type(a) is int:
            return a >> b
        return zext(extract(a, w - 1, b), w - b, w)
    if isvs(a) and isvs(b):
        r = vmap2(a, b, lambda x, y: (x >> y) if y < w else 0, w)
        if r is not None:
            return r
    return mk('lshr', w, a, b)


def ashr(a, b, w):
    if type(b) is int:
        if b >= w:
            b = w - 1
        if b == 0:
            return a
        if type(a) is int:
            return (sx(a, w) >> b) & MASK[w]
        return sext(extract(a, w - 1, b), w - b, w)
    if isvs(a) and isvs(b):
        r = vmap2(a, b, lambda x, y: (sx(x, w) >> min(y, w - 1)) & MASK[w], w)
        if r is not None:
            return r
    return mk('ashr', w, a, b)


# ---------------- structure

def zext(a, fw, tw):
    if type(a) is int or fw == tw:
        return a
    if a.op == 'vs':
        return mk('vs', tw, *a.a)
    if fw == 1:
        return mk('vs', tw, (0, bnot(a)), (1, a))
    if a.op == 'zext':
        return mk('zext', tw, a.a[0])
    return mk('zext', tw, a)


def sext(a, fw, tw):
    if fw == tw:
        return a
    if type(a) is int:
        return sx(a, fw) & MASK[tw]
    if a.op == 'vs':
        return vmap1(a, lambda v: sx(v, fw) & MASK[tw], tw)
    if a.op == 'sext':
        return mk('sext', tw, a.a[0])
    if a.op == 'zext' and a.a[0].w < fw:
        return zext(a.a[0], a.a[0].w, tw)
    return mk('sext', tw, a)


def extract(a, hi, lo):
    w = hi - lo + 1
    if type(a) is int:
        return (a >> lo) & MASK[w]
    if lo == 0 and w == a.w:
        return a
    op = a.op
    if op == 'vs':
        m = MASK[w]
        return vmap1(a, lambda v: (v >> lo) & m, w)
    if op == 'concat':
        out = []
        s = 0
        for v, pw in a.a:
            l = max(lo, s)
            h = min(hi, s + pw - 1)
            if l <= h:
                out.append((extract(v, h - s, l - s), h - l + 1))
            s += pw
        return concat(out)
    if op == 'extract':
        return extract(a.a[0], a.a[1] + w - 1 + lo - 0 - 0 if False else a.a[2] + hi, a.a[2] + lo)
    if op == 'zext':
        iw = a.a[0].w
        if lo >= iw:
            return 0
        if hi < iw:
            return extract(a.a[0], hi, lo)
        return zext(extract(a.a[0], iw - 1, lo), iw - lo, w)
    if op == 'sext':
        iw = a.a[0].w
        if hi < iw:
            return extract(a.a[0], hi, lo)
        if lo < iw:
            return sext(extract(a.a[0], iw - 1, lo), iw - lo, w)
        b = extract(a.a[0], iw - 1, iw - 1)
        return sext(b, 1, w)
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        return f(extract(a.a[0], hi, lo), extract(a.a[1], hi, lo), w)
    if op == 'not':
        return not_(extract(a.a[0], hi, lo), w)
    if op == 'ite':
        return ite(a.a[0], extract(a.a[1], hi, lo), extract(a.a[2], hi, lo), w)
    if lo == 0 and op in ('add', 'mul') and w > 1:
        f = {'add': add, 'mul': mul}[op]
        return f(extract(a.a[0], hi, 0), extract(a.a[1], hi, 0), w)
    if lo == 0 and op == 'neg' and w > 1:
        return neg(extract(a.a[0], hi, 0), w)
    return mk('extract', w, a, hi, lo)


def concat(parts):
    """parts: list of (value,width), low to high"""
    out = []
    for v, pw in parts:
        if type(v) is not int and v.op == 'concat':
            sub_ = v.a
        else:
            sub_ = ((v, pw),)
        for v, pw in sub_:
            if out:
                lv, lw = out[-1]
                if type(v) is int and type(lv) is int:
                    out[-1] = (lv | (v << lw), lw + pw)
                    continue
                if type(v) is not int and type(lv) is not int and v.op == 'extract' and lv.op == 'extract' \
                        and v.a[0] is lv.a[0] and v.a[2] == lv.a[1] + 1:
                    out[-1] = (extract(v.a[0], v.a[1], lv.a[2]), lw + pw)
                    continue
            out.append((v, pw))
    if len(out) == 1:
        return out[0][0]
    w = sum(pw for v, pw in out)
    if len(out) == 2 and type(out[1][0]) is int and out[1][0] == 0:
        return zext(out[0][0], out[0][1], w)
    # all-bool-guard small vs not attempted
    return mk('concat', w, *out)


# ---------------- comparison (return w=1)

def eq(a, b, w):
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return 1 if a == b else 0
    if a is b:
        return 1
    if w == 1:
        return bnot(bxor(a, b))
    if ta:
        a, b = b, a
        ta, tb = tb, ta
    if tb:
        if a.op == 'vs':
            for v, g in a.a:
                if v == b:
                    return g
            return 0
        if a.op == 'zext':
            iw = a.a[0].w
            if b >> iw:
                return 0
            return eq(a.a[0], b, iw)
        if a.op == 'sext':
            iw = a.a[0].w
            t = b & MASK[iw]
            if (sx(t, iw) & MASK[w]) != b:
                return 0
            return eq(a.a[0], t, iw)
        if a.op == 'concat':
            r = 1
            s = 0
            for v, pw in a.a:
                r = band(r, eq(v, (b >> s) & MASK[pw], pw))
                s += pw
                if type(r) is int and r == 0:
                    return 0
            return r
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if type(x) is int or type(y) is int:
                return ite(a.a[0], eq(x, b, w), eq(y, b, w), 1)
        if a.op == 'add' and type(a.a[1]) is int:
            return eq(a.a[0], (b - a.a[1]) & MASK[w], w)
        if a.op == 'not':
            return eq(a.a[0], b ^ MASK[w], w)
        if a.op == 'neg':
            return eq(a.a[0], (-b) & MASK[w], w)
        return mk('eq', 1, a, b)
    if a.op == 'vs' and b.op == 'vs':
        r = 0
        db = dict(b.a)
        for v, g in a.a:
            if v in db:
                r = bor(r, band(g, db[v]))
        return r
    if a.id > b.id:
        a, b = b, a
    if a.op == b.op and a.op in ('zext', 'sext') and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0], a.a[0].w)
    return mk('eq', 1, a, b)


def _cmp(op, f):
    def g(a, b, w):
        ta = type(a) is int
        tb = type(b) is int
        if ta and tb:
            return 1 if f(a, b, w) else 0
        if a is b:
            return 1 if op in ('ule', 'sle') else 0
        if w == 1:
            return {'ult': lambda: band(bnot(a), b), 'ule': lambda: bor(bnot(a), b),
                    'slt': lambda: band(a, bnot(b)), 'sle': lambda: bor(a, bnot(b))}[op]()
        if (ta or a.op == 'vs') and (tb or b.op == 'vs'):
            ia = ((a, 1),) if ta else a.a
            ib = ((b, 1),) if tb else b.a
            if len(ia) * len(ib) <= VS_LIMIT * 10:
                r = 0
                for va, ga in ia:
                    for vb, gb in ib:
                        if f(va, vb, w):
                            r = bor(r, band(ga, gb))
                # try complement if all true
                if all(f(va, vb, w) for va, ga in ia for vb, gb in ib):
                    return 1
                return r
        if not ta and not tb and a.op == b.op and a.op in ('zext', 'sext') and a.a[0].w == b.a[0].w:
            if a.op == 'zext':
                return ({'slt': ult, 'sle': ule, 'ult': ult, 'ule': ule}[op])(a.a[0], b.a[0], a.a[0].w)
            if op in ('slt', 'sle'):
                return g(a.a[0], b.a[0], a.a[0].w)
        if op == 'ult':
            if tb and b == 0:
                return 0
            if ta and a == MASK[w]:
                return 0
            if tb and b == 1:
                return eq(a, 0, w)
        if op == 'ule':
            if ta and a == 0:
                return 1
            if tb and b == MASK[w]:
                return 1
        return mk(op, 1, a, b)
    return g


ult = _cmp('ult', lambda a, b, w: a < b)
ule = _cmp('ule', lambda a, b, w: a <= b)
slt = _cmp('slt', lambda a, b, w: sx(a, w) < sx(b, w))
sle = _cmp('sle', lambda a, b, w: sx(a, w) <= sx(b, w))


# ---------------- floats (as bits)
EXPW = {16: 5, 32: 8, 64: 11, 80: 15}


def finf(w):
    if w == 80:
        return (0x7fff << 64) | (1 << 63)
    e = EXPW[w]
    return ((1 << e) - 1) << (w - 1 - e)


def fabsb(a, w):
    return and_(a, MASK[w - 1], w)


def fisnan(a, w):
    return bnot(ule(fabsb(a, w), finf(w), w)) if type(a) is int or True else None


def _forder(a, w):
    """monotone unsigned key for non-nan floats, +-0 not identified"""
    s = extract(a, w - 1, w - 1)
    return ite(s, not_(a, w), or_(a, 1 << (w - 1), w), w)


def feq(a, b, w):
    if type(a) is not int and a is b:
        return bnot(fisnan(a, w))
    if type(a) is int and type(b) is int:
        if fisnan(a, w) or fisnan(b, w):
            return 0
        return 1 if (a == b or ((a | b) & MASK[w - 1]) == 0) else 0
    if type(a) is int or (type(b) is not int and a.id > b.id):
        a, b = b, a
    if type(b) is int:
        if fisnan(b, w):
            return 0
    return mk('feq', 1, a, b, w)


def _fk(a, w):
    # integer key for concrete floats
    m = MASK[w - 1]
    return -(a & m) if a >> (w - 1) else (a & m)


def flt(a, b, w):
    if type(a) is not int and a is b:
        return 0
    if type(a) is int and type(b) is int:
        if fisnan(a, w) or fisnan(b, w):
            return 0
        return 1 if _fk(a, w) < _fk(b, w) else 0
    return mk('flt', 1, a, b, w)


def fle(a, b, w):
    if type(a) is not int and a is b:
        return bnot(fisnan(a, w))
    return bor(flt(a, b, w), feq(a, b, w))


def funo(a, b, w):
    return bor(fisnan(a, w), fisnan(b, w))


def uf(name, w, *args):
    return mk('uf', w, name, *args)


# ---------------- z3 translation

_decl = {}


def zvar(name, w):
    return z3.Bool(name) if w == 1 else z3.BitVec(name, w)


def tob(z, w):
    return z


def _lower(n):
    """lower feq/flt to primitive nodes (exact IEEE semantic on bit patterns)"""
    a, b, w = n.a
    notnan = band(bnot(fisnan(a, w)), bnot(fisnan(b, w)))
    bothz = band(eq(fabsb(a, w), 0, w), eq(fabsb(b, w), 0, w))
    if n.op == 'feq':
        return band(notnan, bor(eq(a, b, w), bothz))
    return balls([notnan, bnot(bothz), ult(_forder(a, w), _forder(b, w), w)])


def _z1(n, z, ch):
    """translate node given translated children accessor ch"""
    op = n.op
    w = n.w
    a = n.a

    def bvof(x, xw):
        if type(x) is int:
            return z3.BitVecVal(x, xw)
        if x.w == 1:
            return z3.If(x.z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return x.z

    def bof(x):
        if type(x) is int:
            return z3.BoolVal(bool(x))
        return x.z
    if op == 'var':
        return zvar(a[0], w)
    if op == 'bnot':
        return z3.Not(bof(a[0]))
    if op == 'band':
        return z3.And(bof(a[0]), bof(a[1]))
    if op == 'bor':
        return z3.Or(bof(a[0]), bof(a[1]))
    if op == 'bxor':
        return z3.Xor(bof(a[0]), bof(a[1]))
    if op == 'ite':
        if w == 1:
            return z3.If(bof(a[0]), bof(a[1]), bof(a[2]))
        return z3.If(bof(a[0]), bvof(a[1], w), bvof(a[2], w))
    if op == 'vs':
        r = z3.BitVecVal(a[0][0], w)
        for v, g in a[1:]:
            r = z3.If(bof(g), z3.BitVecVal(v, w), r)
        return r
    if op in _BIN:
        return _BIN[op](bvof(a[0], w), bvof(a[1], w))
    if op == 'neg':
        return -bvof(a[0], w)
    if op == 'not':
        return ~bvof(a[0], w)
    if op == 'zext':
        iw = a[0].w
        return z3.ZeroExt(w - iw, bvof(a[0], iw))
    if op == 'sext':
        iw = a[0].w
        if iw == 1:
            return z3.If(bof(a[0]), z3.BitVecVal(MASK[w], w), z3.BitVecVal(0, w))
        return z3.SignExt(w - iw, bvof(a[0], iw))
    if op == 'extract':
        r = z3.Extract(a[1], a[2], bvof(a[0], a[0].w))
        if w == 1:
            return r == 1
        return r
    if op == 'concat':
        ps = [bvof(v, pw) for v, pw in a]
        ps.reverse()
        return z3.Concat(*ps)
    if op in _CMP:
        cw = a[0].w if type(a[0]) is not int else a[1].w
        return _CMP[op](bvof(a[0], cw), bvof(a[1], cw))
    if op in ('feq', 'flt'):
        return bof(_lowered(n))
    if op == 'uf':
        ws = tuple(UFW(x) for x in a[1:])
        key = (a[0], w, ws)
        d = _decl.get(key)
        if d is None:
            srt = [z3.BitVecSort(x) for x in ws] + [z3.BitVecSort(w)]
            d = _decl[key] = z3.Function('%s_%d_%s' % (a[0], w, '_'.join(map(str, ws))), *srt)
        r = d(*[bvof(x[0] if type(x) is tuple else x, UFW(x)) for x in a[1:]])
        if w == 1:
            return r == 1
        return r
    raise Exception('z3 translate ' + op)


def UFW(x):
    # uf arguments that are ints are passed as (value,width)
    if type(x) is tuple:
        return x[1]
    return x.w


_lowcache = {}


def _lowered(n):
    r = _lowcache.get(n)
    if r is None:
        r = _lowcache[n] = _lower(n)
    return r


_BIN = {'add': lambda x, y: x + y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y,
        'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'shl': lambda x, y: x << y,
        'lshr': z3.LShR, 'ashr': lambda x, y: x >> y, 'udiv': z3.UDiv, 'urem': z3.URem,
        'sdiv': lambda x, y: x / y, 'srem': z3.SRem}
_CMP = {'eq': lambda x, y: x == y, 'ult': z3.ULT, 'ule': z3.ULE, 'slt': lambda x, y: x < y,
        'sle': lambda x, y: x <= y}


def children(n):
    op = n.op
    if op == 'vs':
        return [g for v, g in n.a if type(g) is not int]
    if op == 'concat':
        return [v for v, pw in n.a if type(v) is not int]
    if op in ('feq', 'flt'):
        l = _lowered(n)
        return [l] if type(l) is not int else []
    if op == 'var':
        return []
    return [x for x in n.a if isinstance(x, Node)] + [x[0] for x in n.a if type(x) is tuple and isinstance(x[0], Node)]


def to_z3(n):
    if type(n) is int:
        raise Exception('int')
    if n.z is not None:
        return n.z
    stack = [n]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        todo = [c for c in children(x) if c.z is None]
        if todo:
            stack.extend(todo)
            continue
        x.z = _z1(x, None, None)
        stack.pop()
    return n.z


def zb(n):
    """boolean value -> z3 Bool"""
    if type(n) is int:
        return z3.BoolVal(bool(n))
    return to_z3(n)


def vars_of(n, seen=None):
    """set of (name,width) variables"""
    out = set()
    if type(n) is int:
        return out
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'var':
            out.add((x.a[0], x.w))
        st.extend(children(x))
    return out


def evaluate(n, env, ufeval=None, cache=None):
    """concrete evaluation under env: name->int (missing: 0)."""
    if type(n) is int:
        return n
    cache = {} if cache is None else cache
    stack = [n]

    def val(x):
        return x if type(x) is int else cache[x]
    while stack:
        x = stack[-1]
        if x in cache:
            stack.pop()
            continue
        todo = [c for c in children(x) if c not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        op = x.op
        w = x.w
        a = x.a
        if op == 'var':
            r = env.get(a[0], 0)
        elif op == 'vs':
            r = None
            for v, g in a:
                if val(g):
                    r = v
                    break
            if r is None:
                r = a[0][0]
        elif op == 'ite':
            r = val(a[1]) if val(a[0]) else val(a[2])
        elif op == 'concat':
            r = 0
            s = 0
            for v, pw in a:
                r |= val(v) << s
                s += pw
        elif op == 'extract':
            r = extract(val(a[0]), a[1], a[2])
        elif op == 'zext':
            r = val(a[0])
        elif op == 'sext':
            r = sext(val(a[0]), a[0].w, w)
        elif op == 'neg':
            r = (-val(a[0])) & MASK[w]
        elif op in ('not',):
            r = val(a[0]) ^ MASK[w]
        elif op == 'bnot':
            r = 1 - val(a[0])
        elif op in ('band',):
            r = val(a[0]) & val(a[1])
        elif op == 'bor':
            r = val(a[0]) | val(a[1])
        elif op == 'bxor':
            r = val(a[0]) ^ val(a[1])
        elif op in ('feq', 'flt'):
            r = val(_lowered(x))
        elif op == 'uf':
            if ufeval:
                ar = [t[0] if type(t) is tuple else t for t in a[1:]]
                aw = [t[1] if type(t) is tuple else t.w for t in a[1:]]
                r = ufeval(a[0], w, [val(t) for t in ar], aw)
            else:
                r = 0
        elif op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            cw = a[0].w if type(a[0]) is not int else a[1].w
            r = {'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}[op](val(a[0]), val(a[1]), cw)
        else:
            f = {'add': add, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr,
                 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op]
            r = f(val(a[0]), val(a[1]), w)
            if type(r) is not int:
                r = 0
        cache[x] = r
    return cache[n]


def rename(n, f, cache=None):
    """the same DAG with variables renamed by f(name)"""
    if type(n) is int:
        return n
    cache = {} if cache is None else cache

    def sub(a):
        if type(a) is Node:
            return cache[a]
        if type(a) is tuple:
            return tuple(sub(x) for x in a)
        return a
    stack = [n]
    while stack:
        x = stack[-1]
        if x in cache:
            stack.pop()
            continue
        if x.op == 'var':
            cache[x] = mk('var', x.w, f(x.a[0]))
            stack.pop()
            continue
        todo = []
        for a in x.a:
            if type(a) is Node:
                if a not in cache:
                    todo.append(a)
            elif type(a) is tuple:
                for b in a:
                    if type(b) is Node:
                        if b not in cache:
                            todo.append(b)
                    elif type(b) is tuple:
                        todo.extend(c for c in b if type(c) is Node and c not in cache)
        if todo:
            stack.extend(todo)
            continue
        cache[x] = mk(x.op, x.w, *[sub(a) for a in x.a])
        stack.pop()
    return cache[n]


def substitute(n, m, cache=None):
    """variables replaced by expressions (m: name -> int or expression), simplifying on the way up"""
    if type(n) is int:
        return n
    cache = {} if cache is None else cache
    stack = [n]

    def val(x):
        return x if type(x) is int else cache[x]
    while stack:
        x = stack[-1]
        if x in cache:
            stack.pop()
            continue
        todo = [c for c in children(x) if type(c) is Node and c not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        op, w, a = x.op, x.w, x.a
        if op == 'var':
            r = m.get(a[0], x)
        elif all(type(c) is int or cache[c] is c for c in children(x)):
            r = x
        elif op == 'vs':
            r = a[-1][0]
            for v, g in reversed(a[:-1]):
                r = ite(val(g), v, r, w)
        elif op == 'ite':
            r = ite(val(a[0]), val(a[1]), val(a[2]), w)
        elif op == 'concat':
            r = concat([(val(v), pw) for v, pw in a])
        elif op == 'extract':
            r = extract(val(a[0]), a[1], a[2])
        elif op == 'zext':
            r = zext(val(a[0]), a[0].w, w)
        elif op == 'sext':
            r = sext(val(a[0]), a[0].w, w)
        elif op == 'neg':
            r = neg(val(a[0]), w)
        elif op == 'not':
            r = not_(val(a[0]), w)
        elif op == 'bnot':
            r = bnot(val(a[0]))
        elif op in ('band', 'bor', 'bxor'):
            r = {'band': band, 'bor': bor, 'bxor': bxor}[op](val(a[0]), val(a[1]))
        elif op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            cw = a[0].w if type(a[0]) is not int else a[1].w
            r = {'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}[op](val(a[0]), val(a[1]), cw)
        elif op in ('feq', 'flt'):
            raise ValueError('substitution into a floating-point comparison')
        elif op == 'uf':
            r = uf(a[0], w, *[((val(t[0]), t[1]) if type(t) is tuple else (val(t), t.w) if type(val(t)) is int else val(t)) for t in a[1:]])
        else:
            f = {'add': add, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr,
                 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op]
            r = f(val(a[0]), val(a[1]), w)
        cache[x] = r
    return cache[n]
