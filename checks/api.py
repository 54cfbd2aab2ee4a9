"""Checks that call a module function with arrays: shared pieces (array construction, symbolic result shapes, replay)."""
import json
import os
import hashlib
from common import *
from engine.capi import ELSIZE, KIND
from engine.interp import PathExplorer
import real

M64 = (1 << 64) - 1


class Spec(dict):
    """an array argument: t, shape, strides (bytes), es, off (byte offset of the first element in the buffer), nbytes, order"""


def arr(t, n, step=1, es=None, pad=0, shape=None, strides=None, align=0, byteorder='='):
    """one dimensional array of n elements `step` elements apart (pad extra bytes between them), or any shape/strides"""
    es = ELSIZE[t] if es is None else es
    if shape is None:
        s = step * es + (pad if step > 0 else -pad)
        shape, strides = (n,), (s,)
    lo = hi = 0
    if all(shape):
        for k, s in zip(shape, strides):
            if s < 0:
                lo += s * (k - 1)
            else:
                hi += s * (k - 1)
        hi += es
    return Spec(t=t, shape=list(shape), strides=list(strides), es=es, off=-lo, nbytes=max(hi - lo, 1), align=align, order=byteorder)


def make(ctx, st, a, name, cells=None):
    """-> (array object, buffer address); the buffer's bytes are symbolic unless given"""
    g = a['es'] if a['es'] in (1, 2, 4, 8) else 1
    while a['nbytes'] % g or a['off'] % g or any(s % g for s in a['strides']):
        g //= 2
    if callable(cells):
        cells = [cells(i, g) for i in range(a['nbytes'] // g)]
    if cells is None:
        cells = [X.var('%s_%d' % (name, i), g * 8) for i in range(a['nbytes'] // g)]
    buf = ctx.E.newobj(st, a['nbytes'], g, name, off=16 + a['align'], init=cells, kind='data')
    # a dtype that its type number does not identify gets a descriptor of its own
    own = a['t'] in (20, 21, 22)
    o = ctx.C.array(st, a['t'], a['shape'], data=buf, dataoff=a['off'], strides=a['strides'],
                    elsize=a['es'] if own or ELSIZE[a['t']] != a['es'] else None, byteorder='|' if a['t'] == 20 else a['order'])
    return o, buf


def snapshot(E, st, buf):
    o = E.objat(st, buf)
    return list(o.cells), o.gran


def unchanged(E, st, buf, snap):
    """condition: the buffer differs from the snapshot"""
    o = E.objat(st, buf)
    cells, g = snap
    if o.gran == g:
        new = o.cells
    else:
        new = [X.concat([(o.cells[k + j], o.gran * 8) for j in range(g // o.gran)]) for k in range(0, len(o.cells), g // o.gran)]
    b = 0
    for x, y in zip(cells, new):
        if x is not y:
            b = X.bor(b, X.bnot(X.eq(x, y, g * 8)))
    return b


def elements(a):
    """byte offsets of the elements in C order"""
    out = []

    def rec(k, o):
        if k == len(a['shape']):
            out.append(o)
            return
        for i in range(a['shape'][k]):
            rec(k + 1, o + i * a['strides'][k])
    rec(0, a['off'])
    return out


def elem(E, st, buf, off, es):
    if es in (1, 2, 4, 8):
        return E.load(st, buf + off, es)
    return X.concat([(E.load(st, buf + off + b, 1), 8) for b in range(es)])


class Shape(object):
    """the size of a new array is `want`; an array of another size is reported"""

    def __init__(self, ctx, want, slack=0):
        self.ctx = ctx
        self.want = want
        self.slack = slack

    def __enter__(self):
        C = self.ctx.C
        self.sv = C.sym_shape, C.slack
        C.sym_shape = self.pick
        C.slack = ('slack', self.slack) if self.slack else None
        return self

    def __exit__(self, *a):
        self.ctx.C.sym_shape, self.ctx.C.slack = self.sv

    def past(self, st, info):
        """condition: something was written behind the array"""
        if not self.slack:
            return 0
        E = self.ctx.E
        o = E.objat(st, info['data'])
        n = info['es']
        for k in info['shape']:
            n *= k
        n = max(n, 1)
        b = 0
        g0 = info['es'] if info['es'] in (1, 2, 4, 8) and n % info['es'] == 0 else 1
        for i in range((o.size - n) // g0):
            b = X.bor(b, X.bnot(X.eq(E.load(st, o.base + n + i * g0, g0), X.var('slack_%d' % i, g0 * 8), g0 * 8)))
        return b

    def pick(self, st, v):
        E = self.ctx.E
        if E.problem(st, 'size', 'a new array has not the %d elements of the result' % self.want, X.bnot(X.eq(v, self.want, 64))):
            raise PathDead('size')
        return self.want


def hexbuf(a, name, env, cells=None):
    """bytes of the argument's buffer in a model"""
    g = a['es'] if a['es'] in (1, 2, 4, 8) else 1
    while a['nbytes'] % g or a['off'] % g or any(s % g for s in a['strides']):
        g //= 2
    out = b''
    for i in range(a['nbytes'] // g):
        c = cells[i] if cells is not None else None
        if type(c) is int:
            v = c
        else:
            nm = '%s_%d' % (name, i)
            v = env.get(nm)
            if v is None:
                v = int.from_bytes(hashlib.md5(nm.encode()).digest()[:g], 'little') if a['t'] != 0 else 0
        out += (v & ((1 << (8 * g)) - 1)).to_bytes(g, 'little')
    return out.hex()


DT = {0: '?', 1: 'i1', 2: 'u1', 3: 'i2', 4: 'u2', 5: 'i4', 6: 'u4', 7: 'i8', 8: 'u8', 9: 'q', 10: 'Q', 11: 'f4', 12: 'f8', 13: 'g', 14: 'c8', 15: 'c16', 16: 'G',
      17: 'O', 21: 'M8[D]', 22: 'm8[s]', 23: 'f2'}


def dtype(a):
    t = a['t']
    if t == 18:
        return 'S%d' % a['es']
    if t == 19:
        return 'U%d' % (a['es'] // 4)
    if t == 20:
        return 'V%d' % a['es']
    d = DT[t]
    if a['order'] == '>':
        d = '>' + d
    return d


def jarr(a, hx):
    return dict(dtype=dtype(a), shape=a['shape'], strides=a['strides'], off=a['off'], hex=hx, align=a['align'])


RUNTIME = r'''
import ctypes, json, os, signal, sys
import numpy as np
libc = ctypes.CDLL(None)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
from pnumpy import _pnumpy as P
P.initialize()
PG = 4096
keep = []


def make(s, place):
    """the array of a case; place: the buffer ends / starts at an unmapped page, or None"""
    data = bytes.fromhex(s['hex'])
    n = len(data)
    body = ((n + 512 + PG - 1) // PG) * PG
    base = libc.mmap(None, body + 2 * PG, 3, 0x22, -1, 0)
    if place == 'end':
        p = base + PG + body - n
    elif place == 'start':
        p = base + PG
    else:
        p = base + PG + 64 + 16 + s['align']
    libc.mprotect(base, PG, 0)
    libc.mprotect(base + PG + body, PG, 0)
    ctypes.memmove(p, data, n)
    buf = (ctypes.c_char * n).from_address(p)
    keep.append((buf, data))
    return np.ndarray(tuple(s['shape']), np.dtype(s['dtype']), buf, s['off'], tuple(s['strides'])), (p, data)


def same(x, y):
    if x.dtype != y.dtype or x.shape != y.shape:
        return 'result is %s %s instead of %s %s' % (x.dtype, x.shape, y.dtype, y.shape)
    a, b = np.ascontiguousarray(x).tobytes(), np.ascontiguousarray(y).tobytes()
    if a != b:
        es = x.dtype.itemsize
        for i in range(0, len(a), es):
            if a[i:i + es] != b[i:i + es]:
                return 'element %d is %s instead of %s' % (i // es, a[i:i + es].hex(), b[i:i + es].hex())
    return None


def child(fn):
    """run fn in a child; -> its text, or how it died"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(60)
            os.close(r)
            t = fn()
            os.write(w, b'R' + (t or '').encode())
        except Exception as e:
            os.write(w, b'R' + ('raised %s: %s' % (type(e).__name__, e)).encode()[:300])
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        out += x
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if out[:1] != b'R':
        return 'the process died: %s' % ('signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st))
    return out[1:].decode() or None


def main(run):
    for c in CASES:
        for place in (None, 'end', 'start'):
            t = child(lambda: run(c, place))
            if t:
                print('DIFFERS', t)
                print(json.dumps(c)[:1500])
                sys.exit(1)
    print('same')
'''


def replay(pid, name, body, cases, sanitize=True, timeout=200, pre=''):
    """-> (path, confirmed, text): run the cases on a build of the current sources, then under AddressSanitizer"""
    script = pre + RUNTIME + '\nCASES = json.loads(%r)\n' % json.dumps(cases) + body
    path = os.path.join(outdir(pid), '%s_%s.json' % (pid, ''.join(ch if ch.isalnum() else '_' for ch in name)[:80]))
    ok = False
    txt = ''
    for san in (None, 'address') if sanitize else (None,):
        rc, out, err = real.python(script, timeout=timeout, sanitize=san)
        txt = (out or '')[-600:] + ((err or '')[-1200:] if san and 'AddressSanitizer' in (err or '') else '')
        if rc == 1 and 'DIFFERS' in (out or '') or san and 'AddressSanitizer' in (err or ''):
            ok = True
            break
        if rc is None:
            txt = 'timeout'
    with open(path, 'w') as f:
        json.dump(dict(property=pid, group=name, script=script, sanitize=san if ok else None, output=txt), f, indent=1)
    return path, ok, txt


class ApiCheck(Check):
    ncpu = 8
    batch = None
    batch_timeout = 200
    total_timeout = 600

    def group(self, c):
        return c.get('grp') or c.get('key', '?')


def report(rec, E, cand):
    """every memory problem met on the path is a candidate"""
    for p in E.problems:
        m = p.get('model') or {}
        rec.cand(dict(cand, what=p['kind'], detail=p['msg'], env={k: v for k, v in m.items() if k != '@'}))
    rec.obligations += 1
    if not E.problems:
        rec.discharged += 1
    E.problems[:] = []
