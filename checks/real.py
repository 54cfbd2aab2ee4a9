"""Builds the real module from /repo's current sources (g++, the flags of setup.py) into a scratch package, and runs replay
scripts against it in child processes."""
import glob
import json
import os
import shutil
import subprocess
import sys

from engine import build

_pkg = {}


def package(sanitize=None, extra=()):
    """-> directory to put on sys.path; contains pnumpy/ with the freshly compiled module"""
    key = (sanitize, tuple(extra))
    if key in _pkg:
        return _pkg[key]
    d = build.scratch('pnr_')
    pk = os.path.join(d, 'pnumpy')
    os.makedirs(pk)
    for f in glob.glob(build.REPO + '/src/pnumpy/*.py'):
        shutil.copy(f, pk)
    if not os.path.exists(pk + '/_version.py'):
        open(pk + '/_version.py', 'w').write("__version__ = version = '0.0.0'\nversion_tuple = (0, 0, 0)\n")
    inc = ['-I' + build.REPO + '/src', '-I' + build.REPO + '/src/pnumpy', '-I' + build.REPO + '/src/atop'] + ['-I' + x for x in build.includes()]
    g = build.pnumpy_h(d)
    if g:
        inc.append('-I' + g)
    fl = ['-fno-strict-overflow', '-DNDEBUG', '-O2', '-w', '-DPyUnicode_GET_SIZE=PyUnicode_GET_LENGTH', '-fPIC',
          '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-mavx2', '-fpermissive', '-std=c++11', '-pthread', '-falign-functions=32']
    if sanitize:
        fl += ['-g', '-fsanitize=' + sanitize]
    procs, outs = [], []
    for f in list(build.sources()) + list(extra):
        o = os.path.join(d, f.replace('/', '_') + '.o')
        procs.append(subprocess.Popen(['g++'] + fl + inc + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        outs.append(o)
    for p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise Exception('g++ failed: ' + out.decode()[-1500:])
    so = os.path.join(pk, '_pnumpy.abi3.so')
    subprocess.run(['g++', '-shared', '-pthread'] + (['-fsanitize=' + sanitize] if sanitize else []) + outs + ['-o', so], check=True)
    for o in outs:
        os.unlink(o)
    _pkg[key] = d
    return d


def python(script, inp=None, timeout=120, args=(), env=None, sanitize=None, native=False):
    """run a python script (text) against the real build; -> (returncode, stdout, stderr); returncode None on timeout"""
    d = package(sanitize, [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native', 'h_real.cpp')] if native else ())
    w = build.scratch('pnx_')
    p = os.path.join(w, 's.py')
    open(p, 'w').write(script)
    e = dict(os.environ)
    e.update(PYTHONPATH=d + ':' + os.path.dirname(os.path.abspath(__file__)), PYTHONDONTWRITEBYTECODE='1', HOME=w)
    e.pop('PYTHONHOME', None)
    if env:
        e.update(env)
    if sanitize:
        lib = subprocess.check_output(['g++', '-print-file-name=lib%s.so' % {'address': 'asan', 'thread': 'tsan'}[sanitize]], text=True).strip()
        e['LD_PRELOAD'] = lib
        e['ASAN_OPTIONS'] = 'detect_leaks=0'
    try:
        r = subprocess.run([build.NUMPY_PY, p] + list(args), input=inp, capture_output=True, text=True, timeout=timeout, cwd=w, env=e)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'
    finally:
        shutil.rmtree(w, ignore_errors=True)


def cases(cs, timeout=120):
    """run inner-loop cases through rt.py: -> list of result dicts (None for cases lost to a driver failure)"""
    rc, out, err = python(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rt.py')).read(), inp=json.dumps(cs), timeout=timeout)
    res = [None] * len(cs)
    for l in out.split('\n'):
        if l.startswith('R '):
            r = json.loads(l[2:])
            res[r['i']] = r
    if rc != 0 and all(r is None for r in res):
        raise Exception('replay driver failed: rc=%s %s' % (rc, err[-800:]))
    return res
