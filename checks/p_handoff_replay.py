"""Replay of hand-off counterexamples: long series of alternating operations while the workers poll (futex waits time out after a
microsecond), at full speed and with the calling thread in slow motion (the trap flag makes every instruction of the module inside
the calling thread take a few microseconds, so that the workers see every intermediate state)."""
import json
import thr_replay
from thr_replay import SHIM

SLOW = r'''
#include <signal.h>
#include <ucontext.h>
#include <time.h>
#include <stdint.h>
static unsigned long lo, hi; static volatile long left, spin;
static void on_trap(int s, siginfo_t *i, void *u) {
    ucontext_t *c = u;
    unsigned long ip = c->uc_mcontext.gregs[REG_RIP];
    if (ip >= lo && ip < hi) {
        if (--left < 0) { c->uc_mcontext.gregs[REG_EFL] &= ~0x100UL; return; }
        struct timespec a, b;
        clock_gettime(CLOCK_MONOTONIC, &a);
        do clock_gettime(CLOCK_MONOTONIC, &b); while ((b.tv_sec - a.tv_sec) * 1000000000L + b.tv_nsec - a.tv_nsec < spin);
    }
}
void pns_range(unsigned long a, unsigned long b) {
    lo = a; hi = b;
    struct sigaction sa = {0};
    sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, 0);
}
void pns_on(long n, long ns) { left = n; spin = ns; __asm__ volatile("pushfq\n orq $0x100, (%%rsp)\n popfq" : : "r"(0L) : "memory", "cc"); }
void pns_off(void) { __asm__ volatile("pushfq\n andq $~0x100, (%%rsp)\n popfq" : : "r"(0L) : "memory", "cc"); }
'''

BODY = r'''
C = json.loads(%r)
import ctypes
DT = {0: '?', 1: 'i1', 2: 'u1', 3: 'i2', 4: 'u2', 5: 'i4', 6: 'u4', 7: 'i8', 8: 'u8', 9: 'i8', 10: 'u8', 11: 'f4', 12: 'f8', 13: 'g'}
rng = np.random.default_rng(9)
ops = []
def add(kind, *a):
    k = len(ops)
    if kind in ('chunk', 'index'):
        ops.append((kind, a[0], None))
        return
    name, sig, n = a
    f = getattr(np, name)
    mk = lambda t: rng.integers(0, 2, n).astype('?') if t == 0 else (rng.random(n) + 0.5).astype(DT[t]) if t >= 11 else rng.integers(1, 90, n).astype(DT[t])
    if kind == 'vec':
        ins = [mk(t) for t in sig[:-1]]
        out = np.empty(n, DT[sig[-1]])
        def go():
            out.view('u1')[:] = 0x33
            slow(1)
            f(*ins, out=out)
            slow(0)
            return out
        w = f(*ins)
    else:
        a = mk(sig[0])
        def go():
            slow(1)
            r = f.reduce(a)
            slow(0)
            return r
        w = f.reduce(a)
    ops.append((kind, go, np.array(w, copy=True)))
SLOW = 0
def slow(on):
    if SLOW:
        if on: T.pns_on(4000, SLOW)
        else: T.pns_off()
T = ctypes.PyDLL(os.environ['PNS_SO'])
for o in C['allops']: add(*o)
alive()
import pnumpy as pn
pn.initialize() if hasattr(pn, 'initialize') else None
so = pn._pnumpy.__file__
L = ctypes.PyDLL(so)
L.vp_real.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p]
T.pns_range.argtypes = [ctypes.c_ulong, ctypes.c_ulong]; T.pns_on.argtypes = [ctypes.c_long, ctypes.c_long]
R = [[int(x, 16) for x in l.split()[0].split('-')] for l in open('/proc/self/maps') if l.rstrip().endswith(os.path.realpath(so)) and 'x' in l.split()[1]]
T.pns_range(R[0][0], R[-1][1])
buf = np.zeros(4000000, 'u1')
where = ctypes.c_int64()
WHY = {1: 'an element was handed to nobody', 2: 'an element was handed out more than once', 3: 'a range outside the array was handed out', 4: 'work was still running when the call returned'}
def one(o):
    alive()
    if o[0] in ('chunk', 'index'):
        slow(1)
        r = L.vp_real(int(o[0] == 'index'), o[1], 0, buf.ctypes.data, ctypes.byref(where))
        slow(0)
        return WHY.get(r)
    g = o[1]()
    w = o[2]
    if g.dtype.kind == 'f': return None if np.allclose(g, w, rtol=1e-4) else 'wrong result'
    return None if np.array_equal(g, w) else 'wrong result'
def check(o, k, w, i):
    r = one(o)
    if r:
        print('operation %%s after %%s, %%d workers, round %%d: %%s' %% (C['ops'][k], C['ops'][k - 1], w, i, r), flush=True)
        os._exit(3)
t0 = time.time()
(pn._pnumpy.atop_enable if C['atop'] else pn._pnumpy.atop_disable)()
for ns, cnt in ((0, 1500), (300, 40), (3000, 12), (0, 1500)):
    for w in sorted(set([C['w'], 3, 7])):
        pn._pnumpy.thread_setworkers(w)
        for zig in (False, True):
            if zig: pn._pnumpy.thread_zigzag()
            if ns:
                # every slot of the ring last held the other operation
                for i in range(513):
                    for k, o in enumerate(ops): check(o, k, w, i)
                check(ops[0], 0, w, i)
            SLOW = ns
            t1 = time.time()
            for i in range(cnt):
                if time.time() - t1 > 1.0: break
                for k, o in enumerate(ops): check(o, k, w, i)
            SLOW = 0
            if zig: pn._pnumpy.thread_zigzag()
os._exit(0)
'''

HEAD = thr_replay.HEAD.replace("open(d + '/shim.c', 'w').write(SHIM)", "open(d + '/shim.c', 'w').write(SHIM); e0 = os.environ; e0['PNS_SO'] = d + '/shim.so'")


def replay(pid, group, c):
    from p_threads import outdir, real, os
    body = BODY % json.dumps(dict(allops=c['allops'], ops=c['ops'], w=c['w'], atop=c['atop']))
    sc = (HEAD.replace('MODES', repr([6, 0])) % (SHIM.replace('200000}', 'm == 6 ? 1000 : 200000}').replace('m == 5)', 'm >= 5)') + SLOW)) + body
    rc, out, err = real.python(sc, timeout=600, native=True)
    if rc != 3:
        return None, False, 'the real module agrees with NumPy under all replayed schedules (exit %s) %s' % (rc, err[-200:])
    p = os.path.join(outdir(pid), '%s_%s.json' % (pid, ''.join(ch if ch.isalnum() else '_' for ch in group)[:80]))
    txt = (out.strip() or 'crash')[-600:]
    json.dump(dict(property=pid, script=sc, native=True, what=txt, run='python3-vt /verif/checks/replay.py ' + p), open(p, 'w'), indent=1)
    return p, True, txt
