"""Runs (in the venv's python) inner-loop cases against the loops pnumpy installed and NumPy's own loops.
stdin: JSON list of cases {ufunc, sig, bufs:[{hex, off, place}], ptrs:[[buf, byteoffset]..], steps, n, repeat}
stdout: one "R {json}" line per case: {i, crash, got:[hex..], want:[hex..], canary}"""
import ctypes
import json
import os
import signal
import sys
import numpy as np

libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


class PyUFunc(ctypes.Structure):
    _fields_ = [('ob_refcnt', ctypes.c_ssize_t), ('ob_type', ctypes.c_void_p), ('nin', ctypes.c_int), ('nout', ctypes.c_int), ('nargs', ctypes.c_int),
                ('identity', ctypes.c_int), ('functions', ctypes.POINTER(ctypes.c_void_p)), ('data', ctypes.POINTER(ctypes.c_void_p)),
                ('ntypes', ctypes.c_int), ('reserved1', ctypes.c_int), ('name', ctypes.c_char_p), ('types', ctypes.POINTER(ctypes.c_char))]


NAMES = ('add subtract multiply divide true_divide floor_divide minimum maximum bitwise_and bitwise_or bitwise_xor left_shift right_shift '
         'logical_and logical_or logical_xor power remainder fmod equal not_equal less less_equal greater greater_equal '
         'absolute negative positive sign invert logical_not isnan isinf isfinite signbit floor ceil trunc rint sqrt square reciprocal cbrt '
         'sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh log log2 log10 log1p exp exp2 expm1 fabs conjugate').split()
MAP = {'abs': 'absolute', 'bitwise_not': 'invert'}


def loop(name, sig):
    uf = getattr(np, MAP.get(name, name))
    o = ctypes.cast(id(uf), ctypes.POINTER(PyUFunc)).contents
    for k in range(o.ntypes):
        if tuple(o.types[k * o.nargs + j][0] for j in range(o.nargs)) == tuple(sig):
            return o.functions[k], (o.data[k] if o.data else None)
    return None


orig = {}
cs = json.loads(sys.stdin.read())
for c in cs:
    k = (c['ufunc'], tuple(c['sig']))
    if k not in orig:
        orig[k] = loop(*k)
from pnumpy import _pnumpy as P  # noqa
P.initialize()
FN = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)
PG = 4096


class Buf(object):
    def __init__(self, data, off, place):
        self.n = len(data)
        body = ((self.n + 2 * 256 + PG - 1) // PG) * PG
        self.base = libc.mmap(None, body + 2 * PG, 3, 0x22, -1, 0)
        if place == 'end':
            self.p = self.base + PG + body - self.n
        elif place == 'start':
            self.p = self.base + PG
        else:
            self.p = self.base + PG + 256 + off
        libc.mprotect(self.base, PG, 0)
        libc.mprotect(self.base + PG + body, PG, 0)
        self.body = body
        ctypes.memset(self.base + PG, 0xA5, body)
        if self.n:
            ctypes.memmove(self.p, bytes(data), self.n)

    def get(self):
        return ctypes.string_at(self.p, self.n)

    def canary(self):
        s = ctypes.string_at(self.base + PG, self.body)
        k = self.p - self.base - PG
        return s[:k].count(0xA5) == k and s[k + self.n:].count(0xA5) == self.body - k - self.n


def run(c, fn):
    f, data = fn
    bufs = [Buf(bytes.fromhex(b['hex']), b.get('off', 0), b.get('place')) for b in c['bufs']]
    k = len(c['ptrs'])
    a = (ctypes.c_void_p * k)(*[bufs[b].p + o for b, o in c['ptrs']])
    d = (ctypes.c_ssize_t * 1)(c['n'])
    s = (ctypes.c_ssize_t * k)(*c['steps'])
    FN(f)(ctypes.addressof(a), ctypes.addressof(d), ctypes.addressof(s), data)
    return [b.get().hex() for b in bufs], all(b.canary() for b in bufs)


for i, c in enumerate(cs):
    k = (c['ufunc'], tuple(c['sig']))
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(20)
            os.close(r)
            res = {'i': i}
            for cmd in c.get('pre', []):
                getattr(P, cmd)()
            try:
                res['want'], _ = run(c, orig[k])
            except Exception as e:
                res['err'] = repr(e)
            os.write(w, b'W')
            res['got'], res['canary'] = run(c, loop(*k))
            os.write(w, json.dumps(res).encode())
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    while True:
        x = os.read(r, 1 << 20)
        if not x:
            break
        out += x
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    if len(out) > 1:
        res = json.loads(out[1:])
        res['crash'] = 0
    else:
        res = {'i': i, 'crash': os.WTERMSIG(stt) if os.WIFSIGNALED(stt) else -1, 'in_pnumpy': out == b'W'}
    print('R ' + json.dumps(res))
