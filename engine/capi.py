"""Environment model: the parts of CPython, the NumPy C API and libc that the extension calls.

Only the interfaces are modelled (object headers, array/descr layout, tables); what the extension does
with them is executed from its real code."""
import re
import subprocess
from . import ex as X
from . import build
from .ex import Node, MASK
from .interp import PathDead, Unsupported

M64 = (1 << 64) - 1
# numpy type numbers
BOOL, BYTE, UBYTE, SHORT, USHORT, INT, UINT, LONG, ULONG, LONGLONG, ULONGLONG, FLOAT, DOUBLE, LONGDOUBLE = range(14)
OBJECT, STRING, UNICODE, VOID, DATETIME, TIMEDELTA, HALF = 17, 18, 19, 20, 21, 22, 23
ELSIZE = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 13: 16, 14: 8, 15: 16, 16: 32, 17: 8, 18: 0,
          19: 0, 20: 0, 21: 8, 22: 8, 23: 2}
KIND = {0: 'b', 1: 'i', 2: 'u', 3: 'i', 4: 'u', 5: 'i', 6: 'u', 7: 'i', 8: 'u', 9: 'i', 10: 'u', 11: 'f', 12: 'f', 13: 'f', 14: 'c',
        15: 'c', 16: 'c', 17: 'O', 18: 'S', 19: 'U', 20: 'V', 21: 'M', 22: 'm', 23: 'f'}
NAMES = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'longlong', 'ulonglong', 'float32', 'float64',
         'longdouble']
REF = 1 << 20     # initial reference count of borrowed inputs


def isfloat(t):
    return t in (11, 12, 13, 23)


def issigned(t):
    return KIND[t] == 'i'


class CAPI(object):
    def __init__(self, E):
        self.E = E
        self.objs = {}       # addr -> info dict
        self.err = None
        self.replaced = {}   # (ufunc, (sig...)) -> function pointer
        self.threads = []
        self.calls = []
        self.singletons = {}
        E.capi = self
        E.ext.update({k[2:]: getattr(self, k) for k in dir(self) if k.startswith('x_')})
        self.x = E.ext
        self.np_api()

    # ---------------------------------------------------------- numpy api tables
    def np_api(self):
        inc = build.includes()[1]
        self.apinames = {}
        for tab, fn in (('PyArray_API', 'numpy/__multiarray_api.h'), ('PyUFunc_API', 'numpy/__ufunc_api.h')):
            s = open(inc + '/' + fn).read()
            s = s.replace('\\\n', ' ')
            for m in re.finditer(r'#define (\w+)\s+\(\*?\((?:[^#]*?)\)\s*%s\[(\d+)\]\)' % tab, s):
                self.apinames[(tab, int(m.group(2)))] = m.group(1)
        s = open(inc + '/numpy/_numpyconfig.h').read()
        self.npy_abi = int(re.search(r'NPY_ABI_VERSION (0x\w+)', s).group(1), 16)
        self.npy_api = int(re.search(r'NPY_API_VERSION (0x\w+)', s).group(1), 16)

    def table(self, st, tab):
        E = self.E
        n = 400
        a = E.newobj(st, n * 8, 8, tab, init=0)
        for (t, i), name in self.apinames.items():
            if t != tab:
                continue
            if name.endswith('_Type') or name in ('PyArray_Type',):
                v = self.type(st, name)
            elif name.startswith('_PyArrayScalar_Bool'):
                v = 0
            else:
                v = E.faddr('np:' + name)
                if 'np:' + name not in E.ext:
                    E.ext['np:' + name] = self.unimpl(name)
            E.store(st, a + 8 * i, v, 8)
        return a

    def unimpl(self, name):
        def f(E, st, args):
            h = getattr(self, 'n_' + name, None)
            if h is None:
                raise Unsupported('numpy api ' + name)
            return h(E, st, args)
        return f

    # ---------------------------------------------------------- objects
    TFLAGS = {'PyLong_Type': 1 << 24, 'PyList_Type': 1 << 25, 'PyTuple_Type': 1 << 26, 'PyBytes_Type': 1 << 27,
              'PyUnicode_Type': 1 << 28, 'PyDict_Type': 1 << 29, 'PyBool_Type': 1 << 24}

    def type(self, st, name):
        E = self.E
        key = 'type:' + name
        a = E.gaddrs.get(name) or E.gaddrs.get(key)
        if a is None:
            if name in E.mod.globals:
                a = E.gaddr(name)
            else:
                a = E.newobj(None, 1024, 8, name, glob=True, init=0, kind='global')
                E.gaddrs[key] = a
        if a not in self.objs:
            self.objs[a] = dict(kind='type', name=name)
            o = E.gobjs[E.pages[a >> 12]]
            o.cells[0] = REF
            o.cells[168 // o.gran] = self.TFLAGS.get(name, 0)
        return a

    def newpy(self, st, kind, tname, size=64, **kw):
        E = self.E
        t = self.type(st, tname)
        a = E.newobj(st, size, 8, 'py:' + kind, init=0, kind='py')
        E.store(st, a, 1, 8)
        E.store(st, a + 8, t, 8)
        d = dict(kind=kind, **kw)
        self.objs[a] = d
        return a

    def none(self):
        return self.E.gaddr('_Py_NoneStruct')

    def long(self, st, v):
        a = self.newpy(st, 'long', 'PyLong_Type', 32, value=v)
        return a

    def float(self, st, v):
        """v: bit pattern of the double"""
        a = self.newpy(st, 'float', 'PyFloat_Type', 32, value=v)
        self.E.store(st, a + 16, v, 8)
        return a

    def bool(self, st, v):
        a = self.E.gaddr('_Py_TrueStruct' if v else '_Py_FalseStruct')
        self.objs.setdefault(a, dict(kind='bool', value=1 if v else 0))
        self.E.store(st, a + 8, self.type(st, 'PyBool_Type'), 8)
        return a

    def str(self, st, s):
        a = self.newpy(st, 'str', 'PyUnicode_Type', 64, value=s)
        self.E.store(st, a + 16, len(s), 8)
        return a

    def tuple(self, st, items):
        E = self.E
        a = self.newpy(st, 'tuple', 'PyTuple_Type', 24 + 8 * max(len(items), 1))
        E.store(st, a + 16, len(items), 8)
        for i, x in enumerate(items):
            E.store(st, a + 24 + 8 * i, x, 8)
        return a

    def list(self, st, items):
        E = self.E
        a = self.newpy(st, 'list', 'PyList_Type', 48)
        E.store(st, a + 16, len(items), 8)
        b = E.newobj(st, 8 * max(len(items), 1), 8, 'listitems', init=0, kind='py')
        E.store(st, a + 24, b, 8)
        for i, x in enumerate(items):
            E.store(st, b + 8 * i, x, 8)
        return a

    def descr(self, st, t, elsize=None, byteorder='='):
        E = self.E
        key = (t, elsize, byteorder)
        if not hasattr(self, 'descrs'):
            self.descrs = {}
            self.arrfuncs = {}
        a = self.descrs.get(key)
        if a is None:
            a = E.newobj(None, 128, 1, 'descr%d' % t, glob=True, init=0, kind='global')
            o = E.gobjs[E.pages[a >> 12]]
            if t not in self.arrfuncs:
                f = E.newobj(None, 400, 8, 'arrfuncs%d' % t, glob=True, init=0, kind='global')
                self.arrfuncs[t] = f
                fo = E.gobjs[E.pages[f >> 12]]
                # PyArray_ArrFuncs: cast[21], getitem, setitem, copyswapn, copyswap, compare, argmax, dotfunc, scanfunc,
                # fromstr, nonzero, fill, fillwithscalar, sort[3], argsort[3], castdict, scalarkind, cancastscalarkindto,
                # cancastto, fastclip, fastputmask, fasttake, argmin
                def setf(i, nm):
                    n = 'npf:%d:%s' % (t, nm)
                    if n not in E.ext:
                        E.ext[n] = self.npfunc(t, nm)
                    fo.cells[i] = E.faddr(n)
                for i in range(21):
                    setf(i, 'cast%d' % i)
                for i, nm in enumerate(['getitem', 'setitem', 'copyswapn', 'copyswap', 'compare', 'argmax', 'dot', 'scan', 'fromstr',
                                        'nonzero', 'fill', 'fillwithscalar', 'sort0', 'sort1', 'sort2', 'argsort0', 'argsort1',
                                        'argsort2']):
                    if nm == 'fill' and t == 0 and False:
                        continue
                    setf(21 + i, nm)
                setf(21 + 18 + 7, 'argmin')
                self.AF = {nm: 21 + i for i, nm in enumerate(
                    ['getitem', 'setitem', 'copyswapn', 'copyswap', 'compare', 'argmax', 'dot', 'scan', 'fromstr', 'nonzero', 'fill',
                     'fillwithscalar', 'sort0', 'sort1', 'sort2', 'argsort0', 'argsort1', 'argsort2'])}
                self.AF['argmin'] = 46
            es = ELSIZE[t] if elsize is None else elsize

            def put(off, n, v):
                for i in range(n):
                    o.cells[off + i] = (v >> (8 * i)) & 255
            put(0, 8, REF)
            put(8, 8, self.type(st, 'PyArrayDescr_Type'))
            put(24, 1, ord(KIND[t]))
            put(25, 1, ord('?bBhHiIlLqQfdgFDGOSUVMme'[t]))
            put(26, 1, ord(byteorder if es > 1 or byteorder == '|' else '|'))
            put(27, 1, 0x3f if t == 17 else 0)
            put(28, 4, t)
            put(32, 4, es)
            put(36, 4, min(es, 16) if es in (1, 2, 4, 8, 16) else 1)
            put(64, 8, self.arrfuncs[t])
            self.descrs[key] = a
            self.objs[a] = dict(kind='descr', t=t)
        return a

    npfunc_handler = None

    def npfunc(self, t, nm):
        def f(E, st, args):
            h = self.npfunc_handler
            if h is None:
                raise Unsupported('numpy array function %s' % nm)
            return h(E, st, t, nm, args)
        return f

    def arrfunc(self, st, t, nm):
        """current function pointer in descr->f"""
        self.descr(st, t)
        return self.E.load(st, self.arrfuncs[t] + 8 * self.AF[nm], 8)

    def array(self, st, t, shape, data=None, strides=None, elsize=None, flags=None, name='arr', off=0, init='sym', nbytes=None,
              dataoff=0, byteorder='='):
        """make an ndarray; data: existing address or None (fresh object named name)"""
        E = self.E
        d = self.descr(st, t, elsize, byteorder)
        es = ELSIZE[t] if elsize is None else elsize
        nd = len(shape)
        if strides is None:
            strides = []
            s = es
            for k in reversed(shape):
                strides.insert(0, s)
                s *= k
        if data is None:
            if nbytes is None:
                n = es
                for k in shape:
                    n *= k
                nbytes = max(n, 1)
            g = es if es in (1, 2, 4, 8) else 1
            cells = None
            if init == 'sym':
                cells = [X.var('%s_%d' % (name, i), g * 8) for i in range(nbytes // g)]
            elif init is not None:
                cells = init
            data = E.newobj(st, nbytes, g, name, off=off, init=cells, kind='data')
        c = True
        s = es
        for k, q in reversed(list(zip(shape, strides))):
            if k != 1 and q != s:
                c = False
            s *= k
        fc = True
        s = es
        for k, q in zip(shape, strides):
            if k != 1 and q != s:
                fc = False
            s *= k
        if 0 in shape:
            c = fc = True
        if flags is None:
            flags = (1 if c else 0) | (2 if fc else 0) | 4 | 0x100 | 0x400
        dims = E.newobj(st, max(nd * 16, 16), 8, 'dims', init=0, kind='py')
        for i in range(nd):
            E.store(st, dims + 8 * i, shape[i], 8)
            E.store(st, dims + 8 * (nd + i), strides[i] & M64, 8)
        a = self.newpy(st, 'array', 'PyArray_Type', 96, t=t, shape=tuple(shape), strides=tuple(strides), data=data + dataoff, es=es)
        E.store(st, a + 16, data + dataoff, 8)
        E.store(st, a + 24, nd, 4)
        E.store(st, a + 32, dims, 8)
        E.store(st, a + 40, dims + 8 * nd, 8)
        E.store(st, a + 48, 0, 8)
        E.store(st, a + 56, d, 8)
        E.store(st, a + 64, flags, 4)
        return a

    def arrinfo(self, st, a):
        E = self.E
        nd = E.load(st, a + 24, 4)
        dims = E.load(st, a + 32, 8)
        sp = E.load(st, a + 40, 8)
        shape = [E.load(st, dims + 8 * i, 8) for i in range(nd)]
        strides = [E.load(st, sp + 8 * i, 8) for i in range(nd)]
        strides = [X.sx(s, 64) if type(s) is int else s for s in strides]
        d = E.load(st, a + 56, 8)
        t = E.load(st, d + 28, 4)
        return dict(data=E.load(st, a + 16, 8), shape=shape, strides=strides, t=t, es=E.load(st, d + 32, 4), descr=d)

    def values(self, st, a):
        """flat list of element values of an ndarray (C order)"""
        E = self.E
        i = self.arrinfo(st, a)
        out = []

        def rec(k, addr):
            if k == len(i['shape']):
                es = i['es']
                if es in (1, 2, 4, 8):
                    out.append(E.load(st, addr & M64, es))
                else:
                    out.append(X.concat([(E.load(st, (addr + b) & M64, 1), 8) for b in range(es)]))
                return
            for j in range(i['shape'][k]):
                rec(k + 1, addr + j * i['strides'][k])
        rec(0, i['data'])
        return out

    # ---------------------------------------------------------- C strings
    def cstr(self, st, a):
        s = []
        E = self.E
        while True:
            c = E.load(st, a, 1)
            if type(c) is not int:
                raise Unsupported('symbolic C string')
            if c == 0:
                break
            s.append(chr(c))
            a += 1
        return ''.join(s)

    # ---------------------------------------------------------- libc
    def x_malloc(self, E, st, a):
        n = a[0]
        if type(n) is not int:
            if E.path is None or not E.path.sel:
                raise Unsupported('malloc of symbolic size')
            # one path for each size
            for v in range(1024):
                c = X.eq(n, v, 64)
                if not (type(c) is int and c == 0) and E.path.take(c):
                    E.narrow(st, c)
                    n = v
                    break
            else:
                raise Unsupported('malloc of symbolic size')
        off = getattr(self, 'malloc_off', 16)
        r = E.newobj(st, n, 8 if n % 8 == 0 else 1, 'malloc%d' % n, off=off, kind='heap')
        E.events.append(('malloc', r, n))
        return r

    def x__Znwm(self, E, st, a):
        return self.x_malloc(E, st, a)

    x__Znam = x__Znwm

    def x_calloc(self, E, st, a):
        r = self.x_malloc(E, st, [a[0] * a[1]])
        E.memset(st, r, 0, a[0] * a[1])
        return r

    def x_free(self, E, st, a):
        p = a[0]
        if type(p) is not int:
            raise Unsupported('free of symbolic pointer')
        if p == 0:
            return None
        o = E.objat(st, p)
        if o is None or o.base != p or o.kind != 'heap' or o.freed:
            E.problem(st, 'badfree', 'free of %s' % ('unknown pointer' if o is None else '%s+%d freed=%s' % (o.name, p - o.base, o.freed)))
            raise PathDead('badfree')
        o = E.wobj(st, o)
        o.freed = 1
        E.events.append(('free', p))
        return None

    x__ZdlPv = x_free

    def x__ZdlPvm(self, E, st, a):
        return self.x_free(E, st, a[:1])

    def x_printf(self, E, st, a):
        try:
            E.events.append(('printf', self.cstr(st, a[0])))
        except Exception:
            pass
        return 0

    def x_puts(self, E, st, a):
        E.events.append(('printf', self.cstr(st, a[0])))
        return 0

    def x_putchar(self, E, st, a):
        return 0

    def x_snprintf(self, E, st, a):
        if type(a[1]) is int and a[1] > 0:
            E.store(st, a[0], 0, 1)
        return 0

    def x_strlen(self, E, st, a):
        return len(self.cstr(st, a[0]))

    def x_usleep(self, E, st, a):
        return 0

    def x_getpid(self, E, st, a):
        return 1000

    def x_strerror(self, E, st, a):
        return E.newobj(st, 8, 1, 'strerror', init=0)

    def x___assert_fail(self, E, st, a):
        E.problem(st, 'assert', 'assertion failed')
        raise PathDead('assert')

    def x_abort(self, E, st, a):
        E.problem(st, 'abort', 'abort called')
        raise PathDead('abort')

    def x_feraiseexcept(self, E, st, a):
        E.events.append(('feraise', a[0]))
        return 0

    def x_clock_gettime(self, E, st, a):
        E.store(st, a[1], 1, 8)
        E.store(st, a[1] + 8, 1, 8)
        return 0

    ncpu = 4

    def x_sched_getaffinity(self, E, st, a):
        E.memset(st, a[2], 0, a[1])
        E.store(st, a[2], (1 << self.ncpu) - 1, 8)
        return 0

    def x_sched_setaffinity(self, E, st, a):
        return 0

    def x_pthread_create(self, E, st, a):
        self.threads.append((a[2], a[3]))
        E.store(st, a[0], 0x7000 + len(self.threads), 8)
        return 0

    def x_pthread_self(self, E, st, a):
        return 0x7000

    def x_pthread_setaffinity_np(self, E, st, a):
        return 0

    def x_sched_yield(self, E, st, a):
        return 0

    on_syscall = None

    def x_syscall(self, E, st, a):
        if self.on_syscall:
            return self.on_syscall(E, st, a)
        return 0

    def x_asm(self, E, st, a, c, args):
        n = c.count('=')
        if 'cpuid' in a:
            # report AVX2/BMI2/FMA capable cpu (the code under test only selects AVX2 paths on it)
            return tuple([7] + [0xffffffff] * (n - 1)) if n > 1 else 7
        if 'xgetbv' in a:
            return tuple([7] * n) if n > 1 else 7
        if 'rdtsc' in a:
            return (1, 0) if n > 1 else 1
        if n == 0:
            return None
        raise Unsupported('asm ' + a)

    def libm(name, k):
        def f(self, E, st, a):
            w = 64 if k == 'd' else 32
            if name == 'sqrt':
                from .vec import fsqrt
                return fsqrt(a[0], w)
            return X.uf(name, w, *[(x, w) if type(x) is int else x for x in a])
        return f
    for _n in ('sin', 'cos', 'tan', 'exp', 'exp2', 'log', 'log2', 'log10', 'cbrt', 'sqrt', 'asin', 'acos', 'atan', 'atan2', 'sinh',
               'cosh', 'tanh', 'pow', 'fmod', 'expm1', 'log1p'):
        locals()['x_' + _n] = libm(_n, 'd')
        locals()['x_' + _n + 'f'] = libm(_n, 'f')
        locals()['x_' + _n + 'l'] = (lambda nm: lambda self, E, st, a: X.uf(nm, 80, *[(x, 80) if type(x) is int else x for x in a]))(_n)

    def x_round(self, E, st, a):
        from .vec import fround
        return fround(a[0], 5, 64)

    def x_roundf(self, E, st, a):
        from .vec import fround
        return fround(a[0], 5, 32)

    def x_ldexp(self, E, st, a):
        return X.uf('ldexp', 64, *[(a[0], 64) if type(a[0]) is int else a[0], (a[1], 32) if type(a[1]) is int else a[1]])

    def x_memcmp(self, E, st, a):
        n = a[2]
        r = 0
        for i in range(n - 1, -1, -1):
            x = E.load(st, X.add(a[0], i, 64), 1)
            y = E.load(st, X.add(a[1], i, 64), 1)
            r = X.ite(X.eq(x, y, 8), r, X.ite(X.ult(x, y, 8), MASK[32], 1, 32), 32)
        return r

    x_bcmp = x_memcmp

    # ---------------------------------------------------------- CPython
    def x_PyModule_Create2(self, E, st, a):
        d = a[0]
        # PyModuleDef: base(40: ob_refcnt,type,init,index,copy) name 40, doc 48, size 56, methods 64
        m = E.load(st, d + 64, 8)
        self.methods = {}
        while True:
            nm = E.load(st, m, 8)
            if nm == 0:
                break
            self.methods[self.cstr(st, nm)] = (E.load(st, m + 8, 8), E.load(st, m + 16, 4))
            m += 32
        return self.newpy(st, 'module', 'PyModule_Type', name='pnumpy')

    def x_PyImport_ImportModule(self, E, st, a):
        return self.newpy(st, 'module', 'PyModule_Type', name=self.cstr(st, a[0]))

    def x_PyObject_GetAttrString(self, E, st, a):
        o = self.objs.get(a[0])
        n = self.cstr(st, a[1])
        if o and o['kind'] == 'module':
            if n in ('_ARRAY_API', '_UFUNC_API'):
                return self.newpy(st, 'capsule', 'PyCapsule_Type', name=n, ptr=self.table(
                    st, 'PyArray_API' if n == '_ARRAY_API' else 'PyUFunc_API'))
            n = self.np_loops().get('alias:' + n, n)
            k = ('ufunc', n)
            if k not in self.singletons:
                self.singletons[k] = self.newpy(st, 'ufunc', 'PyUFunc_Type', name=n)
            return self.singletons[k]
        h = getattr(self, 'getattr_hook', None)
        if h:
            return h(E, st, a[0], o, n)
        raise Unsupported('getattr %s on %s' % (n, o))

    def x_PyCapsule_GetPointer(self, E, st, a):
        return self.objs[a[0]]['ptr']

    def x_PyType_IsSubtype(self, E, st, a):
        return 1 if a[0] == a[1] else 0

    def x__Py_Dealloc(self, E, st, a):
        o = E.objat(st, a[0])
        E.events.append(('dealloc', a[0], self.objs.get(a[0], {}).get('kind')))
        if o is not None and o.kind == 'py':
            o = E.wobj(st, o)
            o.freed = 1
        return None

    def x_Py_IncRef(self, E, st, a):
        if a[0]:
            E.store(st, a[0], X.add(E.load(st, a[0], 8), 1, 64), 8)

    def x_Py_DecRef(self, E, st, a):
        if a[0]:
            r = X.sub(E.load(st, a[0], 8), 1, 64)
            E.store(st, a[0], r, 8)
            if type(r) is int and r == 0:
                self.x__Py_Dealloc(E, st, a)

    def seterr(self, st, what):
        self.err = what
        self.E.events.append(('seterr', what))

    def x_PyErr_Format(self, E, st, a):
        self.seterr(st, self.cstr(st, a[1]))
        return 0

    def x_PyErr_SetString(self, E, st, a):
        self.seterr(st, self.cstr(st, a[1]))

    def n_PyArray_CompareLists(self, E, st, a):
        for k in range(a[2]):
            x, y = E.load(st, a[0] + 8 * k, 8), E.load(st, a[1] + 8 * k, 8)
            if type(x) is not int or type(y) is not int:
                raise Unsupported('symbolic shape')
            if x != y:
                return 0
        return 1

    def n_PyArray_MultiplyList(self, E, st, a):
        p = 1
        for k in range(a[1] & 0xffffffff if type(a[1]) is int else 0):
            p = X.mul(p, E.load(st, a[0] + 8 * k, 8), 64)
        return p

    def x_PyErr_Clear(self, E, st, a):
        self.err = None

    def x_PyErr_Occurred(self, E, st, a):
        return 0 if self.err is None else 0x99999000

    def x_PyErr_Print(self, E, st, a):
        self.err = None

    def x_PyUnicode_FromString(self, E, st, a):
        return self.str(st, self.cstr(st, a[0]))

    def x_PyUnicode_Find(self, E, st, a):
        s, sub = self.objs[a[0]]['value'], self.objs[a[1]]['value']
        lo, hi, d = [v - (1 << 64) if v >> 63 else v for v in a[2:4]] + [a[4] & 0xffffffff]
        k = s.find(sub, lo, hi) if d == 1 else s.rfind(sub, lo, hi)
        return k & M64

    def x_PyTuple_New(self, E, st, a):
        return self.tuple(st, [0] * a[0])

    def x_PyTuple_SetItem(self, E, st, a):
        E.store(st, a[0] + 24 + 8 * a[1], a[2], 8)
        return 0

    def x_PyTuple_GetItem(self, E, st, a):
        return E.load(st, a[0] + 24 + 8 * a[1], 8)

    def nottuple(self, st, a):
        if self.objs.get(a, {}).get('kind') in ('array', 'list', 'long', 'str', 'bytes', 'dict'):
            self.seterr(st, 'SystemError: bad argument to internal function')
            return True
        return False

    def x_PyTuple_Size(self, E, st, a):
        if self.nottuple(st, a[0]):
            return M64
        return E.load(st, a[0] + 16, 8)

    def x_PyList_New(self, E, st, a):
        return self.list(st, [0] * a[0])

    def x_PyList_GetItem(self, E, st, a):
        return E.load(st, E.load(st, a[0] + 24, 8) + 8 * a[1], 8)

    def x_PyLong_FromLong(self, E, st, a):
        return self.long(st, a[0])

    x_PyLong_FromLongLong = x_PyLong_FromLong
    x_PyLong_FromUnsignedLongLong = x_PyLong_FromLong
    x_PyLong_FromSsize_t = x_PyLong_FromLong

    def x_PyFloat_FromDouble(self, E, st, a):
        return self.float(st, a[0])

    def _lv(self, a):
        o = self.objs.get(a)
        if o is None or o['kind'] not in ('long', 'bool', 'float'):
            return None
        return o['value']

    def x_PyLong_AsLongLong(self, E, st, a):
        v = self._lv(a[0])
        if v is None:
            self.seterr(st, 'TypeError')
            return M64
        return v

    x_PyLong_AsLong = x_PyLong_AsLongLong
    x_PyLong_AsUnsignedLongLongMask = x_PyLong_AsLongLong
    x_PyLong_AsSsize_t = x_PyLong_AsLongLong

    def x_PyLong_AsLongLongAndOverflow(self, E, st, a):
        big = self.objs.get(a[0], {}).get('big')    # 1 / -1: does not fit in 64 bits
        E.store(st, a[1], (big or 0) & 0xffffffff, 4)
        if big:
            return M64
        return self.x_PyLong_AsLongLong(E, st, a)

    def x_PyFloat_AsDouble(self, E, st, a):
        return self._lv(a[0])

    def x_PyDict_New(self, E, st, a):
        return self.newpy(st, 'dict', 'PyDict_Type', items={})

    def x_PyDict_SetItemString(self, E, st, a):
        self.objs[a[0]]['items'][self.cstr(st, a[1])] = a[2]
        return 0

    def x_PyDict_SetItem(self, E, st, a):
        k = self.objs.get(a[1], {})
        self.objs[a[0]]['items'][(k.get('kind'), str(k.get('value', a[1])))] = a[2]
        return 0

    def x_PyDict_GetItem(self, E, st, a):
        k = self.objs.get(a[1], {})
        return self.objs[a[0]]['items'].get((k.get('kind'), str(k.get('value', a[1]))), 0)

    def x_PyDict_GetItemString(self, E, st, a):
        return self.objs[a[0]]['items'].get(self.cstr(st, a[1]), 0)

    def x_PyEval_SaveThread(self, E, st, a):
        return 0x98000

    def x_PyEval_RestoreThread(self, E, st, a):
        return None

    def x_PyObject_CallObject(self, E, st, a):
        E.events.append(('callobj', self.objs.get(a[0], {}).get('name'), [self.objs.get(x, {}).get('value') for x in self.tupleitems(st, a[1])]))
        return self.none()

    def x_PyCallable_Check(self, E, st, a):
        return 1

    def x_PyArg_ParseTuple(self, E, st, a):
        if self.nottuple(st, a[0]):
            return 0
        items = self.tupleitems(st, a[0])
        fmt = self.cstr(st, a[1]).split(':')[0].split(';')[0]
        return self.parse(E, st, items, fmt, a[2:])

    def x_PyArg_ParseTupleAndKeywords(self, E, st, a):
        items = self.tupleitems(st, a[0])
        fmt = self.cstr(st, a[2]).split(':')[0].split(';')[0]
        return self.parse(E, st, items, fmt, a[4:])

    def tupleitems(self, st, t):
        n = self.E.load(st, t + 16, 8)
        return [self.E.load(st, t + 24 + 8 * i, 8) for i in range(n)]

    def parse(self, E, st, items, fmt, outs):
        i = 0
        k = 0
        opt = False
        j = 0
        while j < len(fmt):
            c = fmt[j]
            j += 1
            if c == '|':
                opt = True
                continue
            if c == '$':
                continue
            bang = False
            if c == 'O' and j < len(fmt) and fmt[j] == '!':
                j += 1
                bang = True
            if i >= len(items):
                if opt:
                    return 1
                self.seterr(st, 'TypeError: missing argument')
                return 0
            x = items[i]
            i += 1
            if c == 'O':
                if bang:
                    ty = E.load(st, x + 8, 8)
                    if ty != outs[k]:
                        self.seterr(st, 'TypeError: wrong type')
                        return 0
                    k += 1
                E.store(st, outs[k], x, 8)
                k += 1
            elif c in 'iIlLKknp':
                v = self._lv(x)
                if v is None:
                    self.seterr(st, 'TypeError: an integer is required')
                    return 0
                n = {'i': 4, 'I': 4, 'p': 4}.get(c, 8)
                E.store(st, outs[k], X.extract(v, n * 8 - 1, 0), n)
                k += 1
            elif c == 's':
                o = self.objs[x]
                s = o['value']
                b = E.newobj(st, len(s) + 1, 1, 'cstr', init=[ord(q) for q in s] + [0])
                E.store(st, outs[k], b, 8)
                k += 1
            elif c == 'd':
                E.store(st, outs[k], self._lv(x), 8)
                k += 1
            else:
                raise Unsupported('format ' + fmt)
        if i < len(items):
            self.seterr(st, 'TypeError: too many arguments')
            return 0
        return 1

    # ---------------------------------------------------------- NumPy C API
    def n_PyArray_GetNDArrayCVersion(self, E, st, a):
        return self.npy_abi

    def n_PyArray_GetNDArrayCFeatureVersion(self, E, st, a):
        return self.npy_api

    def n_PyArray_GetEndianness(self, E, st, a):
        return 1

    def n_PyArray_DescrFromType(self, E, st, a):
        return self.descr(st, a[0])

    def n_PyArray_DescrNewFromType(self, E, st, a):
        return self.descr(st, a[0])

    def n_PyUFunc_ReplaceLoopBySignature(self, E, st, a):
        name = self.objs[a[0]]['name']
        sig = []
        nin = self.ufunc_nargs(name)
        for i in range(nin):
            sig.append(E.load(st, a[2] + 4 * i, 4))
        sig = tuple(sig)
        loops = self.np_loops()
        if (name, sig) not in loops:
            E.events.append(('nosig', name, sig))
            return M64 & 0xffffffff
        fn = 'old:%s:%s' % (name, ','.join(map(str, sig)))
        # the loops are replaced in the ufunc object: an alias (bitwise_not is invert) sees its earlier replacement
        if fn not in E.ext:
            E.ext[fn] = self.oldloop(name, sig)
        prev = self.replaced.get((name, sig)) or E.faddr(fn)
        self.replaced[(name, sig)] = a[1]
        if a[3]:
            E.store(st, a[3], prev, 8)
        return 0

    _loops = {}

    def np_loops(self):
        """real numpy's ufunc type table (ufunc.types), for the ufuncs that exist"""
        if not CAPI._loops:
            src = '''
import numpy as np
T={c:i for i,c in enumerate('?bBhHiIlLqQfdgFDGOSUVMme')}
for n in dir(np):
    u=getattr(np,n)
    if isinstance(u,np.ufunc):
        for t in u.types:
            i,o=t.split('->')
            print(n,u.nargs,','.join(str(T[c]) for c in i+o),u.__name__)
'''
            out = subprocess.check_output([build.NUMPY_PY, '-c', src], text=True, env={'PATH': '/usr/bin:/bin'})
            for l in out.split('\n'):
                if l:
                    n, k, s, can = l.split()
                    CAPI._loops['alias:' + n] = can
                    CAPI._loops[(n, tuple(map(int, s.split(','))))] = 1
                    CAPI._loops[n] = int(k)
        return CAPI._loops

    def ufunc_nargs(self, name):
        return self.np_loops()[name]

    oldloop_handler = None

    def oldloop(self, name, sig):
        def f(E, st, args):
            h = self.oldloop_handler
            if h is None:
                raise Unsupported('numpy loop %s' % name)
            return h(E, st, name, sig, args)
        return f

    slack = None
    sym_shape = None      # f(st, size) -> concrete size: how to continue with an array of symbolic size

    def n_PyArray_INCREF(self, E, st, a):
        E.events.append(('PyArray_INCREF', a[0]))
        return 0

    def n_PyArray_New(self, E, st, a):
        # subtype, nd, dims, type_num, strides, data, itemsize, flags, obj
        nd, dims, t, strides, data, itemsize, flags = a[1], a[2], X.sx(a[3], 32), a[4], a[5], a[6], a[7]
        shape = [E.load(st, dims + 8 * i, 8) for i in range(nd)]
        if any(type(s) is not int for s in shape):
            if self.sym_shape is None:
                raise Unsupported('PyArray_New of symbolic shape')
            shape = [s if type(s) is int else self.sym_shape(st, s) for s in shape]
        if t not in ELSIZE or t > 23 or any(s >> 63 for s in shape):
            self.seterr(st, 'ValueError: bad array type or shape')
            return 0
        es = ELSIZE[t] if t not in (18, 19, 20) else itemsize
        sd = None
        if strides:
            sd = [X.sx(E.load(st, strides + 8 * i, 8), 64) for i in range(nd)]
        elif flags & 2 and not flags & 1:
            sd = []
            s = es
            for k in shape:
                sd.append(s)
                s *= k
        self._na = getattr(self, '_na', 0) + 1
        nb = init = None
        if self.slack and not data:
            # room behind the array, to see writes past its end: (name, bytes)
            need = es
            for k in shape:
                need *= k
            need = max(need, 1)
            g = es if es in (1, 2, 4, 8) and need % es == 0 else 1
            more = (self.slack[1] + g - 1) // g
            init = [X.var('res_%d' % i, g * 8) for i in range(need // g)] + [X.var('%s_%d' % (self.slack[0], i), g * 8) for i in range(more)]
            nb = need + more * g
        r = self.array(st, t, shape, data=data or None, strides=sd, elsize=None if t not in (18, 19, 20) else es,
                       name='new%d' % self._na, init=init, off=16, nbytes=nb)
        E.events.append(('PyArray_New', r))
        return r

    def n_PyArray_NewFromDescr(self, E, st, a):
        # subtype, descr, nd, dims, strides, data, flags, obj
        t = E.load(st, a[1] + 28, 4)
        es = E.load(st, a[1] + 32, 4)
        r = self.n_PyArray_New(E, st, [a[0], a[2], a[3], t, a[4], a[5], es, a[6], a[7]])
        if r:
            E.store(st, r + 56, a[1], 8)
        return r

    def n_PyArray_DescrFromObject(self, E, st, a):
        d = self.arrinfo(st, a[0])['descr']     # of an array: its own
        E.store(st, d, X.add(E.load(st, d, 8), 1, 64), 8)
        return d

    def n_PyArray_NewLikeArray(self, E, st, a):
        i = self.arrinfo(st, a[0])
        t, es = i['t'], i['es']
        if a[2]:
            t = E.load(st, a[2] + 28, 4)
            es = E.load(st, a[2] + 32, 4)
        self._na = getattr(self, '_na', 0) + 1
        r = self.array(st, t, i['shape'], elsize=None if t not in (18, 19, 20) else es, name='new%d' % self._na, init=None, off=16)
        E.events.append(('PyArray_New', r))
        return r

    def n_PyArray_FromAny(self, E, st, a):
        o = self.objs.get(a[0], {})
        if a[1] or a[2] or a[3] or a[5] or o.get('kind') != 'array':
            raise Unsupported('PyArray_FromAny')
        i = self.arrinfo(st, a[0])
        f = E.load(st, a[0] + 64, 4)
        if not (a[4] & 0x20 or a[4] & 1 and not f & 1):
            E.store(st, a[0], X.add(E.load(st, a[0], 8), 1, 64), 8)
            return a[0]
        if len(i['shape']) != 1 or i['t'] == 17:
            raise Unsupported('PyArray_FromAny of %d dimensions' % len(i['shape']))
        self._na = getattr(self, '_na', 0) + 1
        es = i['es']
        r = self.array(st, i['t'], i['shape'], elsize=None if i['t'] not in (18, 19, 20) else es, name='new%d' % self._na, init=None, off=16)
        d = self.arrinfo(st, r)['data']
        for k in range(i['shape'][0]):
            E.memcpy(st, d + k * es, i['data'] + k * i['strides'][0], es)
        return r


def reset_refs(E):
    pass


def setup(mod, ncpu=4, init=True, threads=True):
    """engine with module initialised the way the interpreter and pnumpy.__init__ do it"""
    from .interp import Engine, State
    E = Engine(mod)
    C = CAPI(E)
    C.ncpu = ncpu
    st = State()
    for tn in list(C.TFLAGS) + ['PyFloat_Type']:
        if tn in mod.globals:
            C.type(st, tn)
    n = C.none()
    E.store(st, n, REF, 8)
    E.store(st, E.gaddr('_Py_TrueStruct') if '_Py_TrueStruct' in mod.globals else n, REF, 8)
    E.store(st, E.gaddr('_Py_FalseStruct') if '_Py_FalseStruct' in mod.globals else n, REF, 8)
    for g in list(mod.globals):
        if g.startswith('PyExc_'):
            E.gaddr(g)
    # C++ static constructors
    if 'llvm.global_ctors' in mod.globals:
        import re as _re
        for f in _re.findall(r'ptr @("[^"]*"|[\w.$]+), ptr', mod.globals['llvm.global_ctors']):
            E.calln(st, f.strip('"'), [])
    m = E.calln(st, 'PyInit__pnumpy', [])
    assert m, 'PyInit failed'
    if init:
        r = C.method(st, 'initialize') if False else E.callp(st, C.methods['initialize'][0], [m, C.tuple(st, []), 0])
        assert r, 'initialize failed: %s' % C.err
    return E, C, st
