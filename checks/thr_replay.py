"""Replay of thread counterexamples on the real module: a script that runs ufuncs under several (legal) schedules, forced by an
interposed syscall() that delays the caller after it woke the workers, or the workers after they woke up."""
import json

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sched.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
static int mode(void) { char *s = getenv("PNS_MODE"); return s ? atoi(s) : 0; }
static long (*real)(long, ...);
long syscall(long nr, ...) {
    va_list v; va_start(v, nr);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (!real) real = dlsym(RTLD_NEXT, "syscall");
    static int m = -1; static unsigned seed = 7;
    if (m < 0) m = mode();
    long r;
    if (nr == SYS_futex && (b & 127) == 1) {
        r = real(nr, a, b, c, d, e, f);
        if (m == 1) usleep(1500);
        if (m == 3) usleep(rand_r(&seed) % 60);
    } else if (nr == SYS_futex && (b & 127) == 0) {
        if (m == 5) { struct { long s, n; } ts = {0, 200000}; r = real(nr, a, b, c, &ts, e, f); }
        else r = real(nr, a, b, c, d, e, f);
        if (m == 2) usleep(1500);
        if (m == 3) usleep(rand_r(&seed) % 60);
    } else r = real(nr, a, b, c, d, e, f);
    return r;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    memset(s, 0, n);
    for (unsigned i = 0; i < 16 && i / 8 < n; i++) ((unsigned char *)s)[i / 8] |= 1 << (i % 8);
    return 0;
}
'''

HEAD = r'''
import os, sys, json, subprocess, signal, time
SHIM = %r
if 'PNS' not in os.environ:
    d = os.getcwd()
    open(d + '/shim.c', 'w').write(SHIM)
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', d + '/shim.c', '-o', d + '/shim.so', '-ldl'], check=True)
    bad = 0
    for m in MODES:
        e = dict(os.environ, PNS='1', PNS_MODE=str(m), LD_PRELOAD=d + '/shim.so')
        r = subprocess.run([sys.executable, __file__], env=e)
        if r.returncode:
            print('schedule mode', m, 'exit', r.returncode, '(no progress for 40 s)' if r.returncode == -14 else '')
            sys.exit(3)
    sys.exit(0)
import numpy as np
from numpy.lib.stride_tricks import as_strided
def alive():
    signal.alarm(40)
def warm():
    # every slot of the ring has been used before
    if os.environ.get('PNS_MODE') != '0': return
    a = np.ones(196608, 'i4')
    for i in range(1100):
        alive()
        m = 65536 + i %% 8 * 16384
        r = np.add(a[:m], 1)
        if i %% 100 == 0 and not (r == 2).all(): print('np.add wrong after', i, 'calls'); sys.exit(1)
'''

ELEM = r'''
CASES = json.loads(%r)
DT = {0: '?', 1: 'i1', 2: 'u1', 3: 'i2', 4: 'u2', 5: 'i4', 6: 'u4', 7: 'i8', 8: 'u8', 9: 'i8', 10: 'u8', 11: 'f4', 12: 'f8', 13: 'g'}
def operands(c, n, rng):
    es = [np.dtype(DT[t]).itemsize for t in c['sig']]
    arrs = {}
    res = []
    for k, nm in enumerate(c['same']):
        s = c['steps'][k]
        if nm in arrs:
            res.append(arrs[nm])
            continue
        size = abs(s) * (n - 1) + es[k]
        t = c['sig'][k]
        m = size // es[k] + 2
        if t == 0: b = rng.integers(0, 2, m).astype('?')
        elif t >= 11: b = (rng.random(m) * 4 + 0.5).astype(DT[t])
        else: b = rng.integers(1, 100, m).astype(DT[t])
        v = as_strided(b[(n - 1) * abs(s) // es[k]:] if s < 0 else b, (n,), (s,))
        if k == len(c['same']) - 1:
            b.view('u1')[:] = 1 if t == 0 else 0x55
        arrs[nm] = v
        res.append(v)
    return res
def run(c, ops):
    f = getattr(np, c['ufunc'])
    with np.errstate(all='ignore'):
        f(*ops[:-1], out=ops[-1])
    return ops[-1]
def fresh(c, n):
    return operands(c, n, np.random.default_rng(5))
want = []
for c in CASES:
    alive()
    want.append([np.array(run(c, fresh(c, n)), copy=True) for n in c['ns']])
alive()
import pnumpy as pn
pn.initialize() if hasattr(pn, 'initialize') else None
warm()
t0 = time.time()
for c, ws in zip(CASES, want):
    for w in c['workers']:
        pn._pnumpy.thread_setworkers(w)
        for zig in (False, True):
            if zig: pn._pnumpy.thread_zigzag()
            for atop in ((c['atop'],) if 'atop' in c else (True, False)):
                (pn._pnumpy.atop_enable if atop else pn._pnumpy.atop_disable)()
                for n, x in zip(c['ns'], ws):
                    for rep in range(c.get('reps', 6)):
                        if time.time() - t0 > 20: sys.exit(0)
                        alive()
                        ops = fresh(c, n)
                        g = run(c, ops)
                        ok = np.array_equal(g, x, equal_nan=True) if c['sig'][-1] < 11 or not c.get('tol') else np.allclose(g, x, rtol=1e-4, equal_nan=True)
                        if not ok:
                            i = np.flatnonzero(~((g == x) | ((g != g) & (x != x))))
                            print('ufunc %%s n=%%d workers=%%d zigzag=%%s atop=%%s: %%d elements differ from numpy, first at %%d: %%s instead of %%s' %% (c['ufunc'], n, w, zig, atop, len(i), i[0], g[i[0]], x[i[0]]))
                            sys.exit(1)
            if zig: pn._pnumpy.thread_zigzag()
signal.alarm(0)
sys.exit(0)
'''

REDUCE = r'''
CASES = json.loads(%r)
DT = {0: '?', 1: 'i1', 2: 'u1', 3: 'i2', 4: 'u2', 5: 'i4', 6: 'u4', 7: 'i8', 8: 'u8', 9: 'i8', 10: 'u8', 11: 'f4', 12: 'f8', 13: 'g'}
def data(c, n, var):
    rng = np.random.default_rng(11 + var)
    t = c['sig'][1]
    st = c['step']
    m = abs(st) * n + 1
    if t == 0: b = np.full(m, var %% 2 == 0)
    elif t >= 11: b = rng.random(m) * 2 + 0.5 if c['ufunc'] != 'multiply' else 1 + (rng.random(m) - 0.5) / 1e4
    else: b = rng.integers(1, 100, m)
    b = b.astype(DT[t])
    if t == 0: b[n // 2 * abs(st)] = var %% 2
    else:
        if c['ufunc'] in ('minimum', 'maximum'):
            if var == 1: b[-1 - (n // 3) * abs(st)] = 120
            if var == 2: b[-1 - (n // 3) * abs(st)] = 0
        if var == 3 and t < 11: b[:] = rng.integers(0, 3, m)
    return b[:abs(st) * n][::st] if st > 0 else b[:abs(st) * n][::-1][::-st]
INIT = dict(add=5, multiply=3, minimum=2, maximum=99, bitwise_and=0x2b, bitwise_or=0x40, bitwise_xor=0x40, logical_and=1, logical_or=0)
def run(c, a, v=0):
    f = getattr(np, c['ufunc'])
    with np.errstate(all='ignore'):
        if v == 3 and c['ufunc'] in INIT:       # a start value of its own
            return f.reduce(a, dtype=a.dtype, initial=a.dtype.type(INIT[c['ufunc']]))
        return f.reduce(a, dtype=a.dtype)
def same(c, g, x):
    if g.dtype != x.dtype: return False
    if c['sig'][0] >= 11 and c['ufunc'] in ('add', 'multiply', 'subtract', 'divide'):
        return bool(np.allclose(g, x, rtol=2e-3 if g.dtype.itemsize == 4 else 1e-9, equal_nan=True))
    return bool(g == x) or bool(g != g and x != x)
want = []
for c in CASES:
    alive()
    want.append([[run(c, data(c, n, v), v) for v in range(4)] for n in c['ns']])
alive()
import pnumpy as pn
pn.initialize() if hasattr(pn, 'initialize') else None
warm()
t0 = time.time()
for c, ws in zip(CASES, want):
    for w in c['workers']:
        pn._pnumpy.thread_setworkers(w)
        for zig in (False, True):
            if zig: pn._pnumpy.thread_zigzag()
            for atop in (True, False):
                (pn._pnumpy.atop_enable if atop else pn._pnumpy.atop_disable)()
                for n, xs in zip(c['ns'], ws):
                    for v in range(4):
                        a = data(c, n, v)
                        for rep in range(c.get('reps', 4)):
                            if time.time() - t0 > 20: sys.exit(0)
                            alive()
                            g = run(c, a, v)
                            if not same(c, g, xs[v]):
                                print('%%s.reduce n=%%d workers=%%d zigzag=%%s atop=%%s: %%r instead of %%r' %% (c['ufunc'], n, w, zig, atop, g, xs[v]))
                                sys.exit(1)
            if zig: pn._pnumpy.thread_zigzag()
signal.alarm(0)
sys.exit(0)
'''


OVERLAP = r'''
CASES = json.loads(%r)
DT = {0: '?', 1: 'i1', 2: 'u1', 3: 'i2', 4: 'u2', 5: 'i4', 6: 'u4', 7: 'i8', 8: 'u8', 9: 'i8', 10: 'u8', 11: 'f4', 12: 'f8', 13: 'g'}
# the inner loop is called directly, the way NumPy calls it for accumulate and for outputs behind their inputs: operands overlap
import ctypes
class PyUFunc(ctypes.Structure):
    _fields_ = [('ob_refcnt', ctypes.c_ssize_t), ('ob_type', ctypes.c_void_p), ('nin', ctypes.c_int), ('nout', ctypes.c_int), ('nargs', ctypes.c_int),
                ('identity', ctypes.c_int), ('functions', ctypes.POINTER(ctypes.c_void_p)), ('data', ctypes.POINTER(ctypes.c_void_p)),
                ('ntypes', ctypes.c_int), ('reserved1', ctypes.c_int), ('name', ctypes.c_char_p), ('types', ctypes.POINTER(ctypes.c_char))]
FN = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)
def loop(name, sig):
    o = ctypes.cast(id(getattr(np, {'abs': 'absolute', 'bitwise_not': 'invert'}.get(name, name))), ctypes.POINTER(PyUFunc)).contents
    for k in range(o.ntypes):
        if [o.types[k * o.nargs + j][0] for j in range(o.nargs)] == list(sig):
            return FN(o.functions[k]), (o.data[k] if o.data else None)
def geometry(c, n):
    es = [np.dtype(DT[t]).itemsize for t in c['sig']]
    lo = [min(0, s * (n - 1)) for s in c['steps']]
    hi = [max(0, s * (n - 1)) + e for s, e in zip(c['steps'], es)]
    off = list(c['off'])
    k = len(off) - 1
    out = (off[k] + lo[k], off[k] + hi[k])
    for m in range(k):      # operands that are nowhere near the output go to a place of their own
        if off[m] + hi[m] <= out[0] or off[m] + lo[m] >= out[1]:
            off[m] = out[1] + 64 + m * (n * 17 + 4096) - lo[m]
    base = -min(o + l for o, l in zip(off, lo))
    base += -base %% 64
    return [o + base for o in off], base + max(o + h for o, h in zip(off, hi)) + 64
def call(fn, c, n, data):
    off, size = geometry(c, n)
    buf = data.copy()
    p = buf.ctypes.data
    k = len(off)
    a = (ctypes.c_void_p * k)(*[p + o for o in off])
    d = (ctypes.c_ssize_t * 1)(n)
    s = (ctypes.c_ssize_t * k)(*c['steps'])
    fn[0](ctypes.addressof(a), ctypes.addressof(d), ctypes.addressof(s), fn[1])
    return buf
orig = [loop(c['ufunc'], c['sig']) for c in CASES]
todo = []
for c, f in zip(CASES, orig):
    for n in sorted(set([min(c['n'], 1 << 20), 70000, 300000])):
        alive()
        rng = np.random.default_rng(3)
        sz = geometry(c, n)[1]
        t = c['sig'][0]
        data = rng.integers(0, 2, sz).astype('u1') if t == 0 else rng.integers(0, 3, sz).astype('u1') if t < 11 else (rng.random(sz // 4 + 16)).astype('f4').view('u1')[:sz] if t == 11 else rng.random(sz // 8 + 8).view('u1')[:sz]
        todo.append((c, n, data, call(f, c, n, data)))
import pnumpy as pn
pn.initialize() if hasattr(pn, 'initialize') else None
warm()
for w in (3, 7, 14):
    pn._pnumpy.thread_setworkers(w)
    for c, n, data, want in todo:
        f = loop(c['ufunc'], c['sig'])
        for rep in range(8):
            alive()
            g = call(f, c, n, data)
            if not np.array_equal(g, want):
                if c['sig'][0] >= 11 and np.allclose(g[:len(g) // 8 * 8].view(DT[c['sig'][0]]), want[:len(g) // 8 * 8].view(DT[c['sig'][0]]), rtol=1e-4, equal_nan=True): continue
                i = np.flatnonzero(g != want)
                print('%%s over %%d elements whose output overlaps an input (steps %%s), %%d workers: %%d bytes differ from the sequential loop' %% (c['ufunc'], n, c['steps'], w, len(i)))
                sys.exit(1)
signal.alarm(0)
sys.exit(0)
'''


NATIVE = r'''
C = json.loads(%r)
import ctypes
import pnumpy as pn
pn.initialize() if hasattr(pn, 'initialize') else None
warm()
L = ctypes.CDLL(pn._pnumpy.__file__)
L.vp_real.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p]
WHY = {1: 'element %%d was handed to nobody', 2: 'element %%d was handed out more than once', 3: 'a range outside the array was handed out', 4: 'work was still running when the call returned (element %%d)'}
buf = np.zeros(4000000, 'u1')
where = ctypes.c_int64()
t0 = time.time()
for w in ([0] if C['off'] else []) + C['workers']:
    if w:
        pn._pnumpy.thread_enable()
        pn._pnumpy.thread_setworkers(w)
    else:
        pn._pnumpy.thread_disable()
    for zig in (False, True):
        if zig: pn._pnumpy.thread_zigzag()
        for wake in C['wakes']:
            for n in C['ns']:
                for rep in range(4):
                    if time.time() - t0 > 20: os._exit(0)
                    alive()
                    r = L.vp_real(C['index'], n, wake, buf.ctypes.data, ctypes.byref(where))
                    if r:
                        s = WHY[r]
                        print('n=%%d workers=%%d (0: threading off) wake=%%d zigzag=%%s: %%s' %% (n, w, wake, zig, s %% where.value if '%%d' in s else s), flush=True)
                        os._exit(1)
        if zig: pn._pnumpy.thread_zigzag()
os._exit(0)
'''


def script(body, cases=None, modes=(0, 1, 2, 3)):
    h = HEAD.replace('MODES', repr(list(modes))) % SHIM
    return h + (body % json.dumps(cases) if cases is not None else body)