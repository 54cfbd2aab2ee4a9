"""Compile /repo's current sources to LLVM IR in a scratch directory and load them."""
import glob
import os
import re
import shutil
import subprocess
import tempfile
import atexit

REPO = os.environ.get('PN_REPO', '/repo')
NUMPY_PY = '/opt/vp/venv/bin/python'
LLVM = '/usr/lib/llvm-18/bin'
_scratch = []


def scratch(prefix='pnv_'):
    d = tempfile.mkdtemp(prefix=prefix)
    _scratch.append(d)
    return d


def _clean():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_clean)


def includes():
    out = subprocess.check_output([NUMPY_PY, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
                                  text=True).split()
    return out


def sources():
    """the C++ files setup.py compiles"""
    s = open(os.path.join(REPO, 'setup.py')).read()
    s = "\n".join(l for l in s.split("\n") if not l.strip().startswith("#"))
    m = re.findall(r"""['"](src/[\w/.]+\.cpp)['"]""", s)
    fs = [os.path.join(REPO, x) for x in m]
    fs = [f for f in fs if os.path.exists(f)]
    if not fs:
        fs = sorted(glob.glob(REPO + '/src/atop/*.cpp')) + sorted(glob.glob(REPO + '/src/pnumpy/*.cpp'))
        fs = [f for f in fs if not f.endswith(('item_selection.cpp', 'arange.cpp'))]
    return fs


CXX = ['-O1', '-mavx2', '-std=c++11', '-fwrapv', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-exceptions',
       '-ffp-contract=off', '-fno-strict-aliasing', '-fno-builtin-memcmp', '-w', '-fpermissive', '-pthread',
       '-DPyUnicode_GET_SIZE=PyUnicode_GET_LENGTH', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-DNDEBUG']


def pnumpy_h(d):
    """PNUMPY.h and _version.py are produced by setup.py (ignored files); regenerate when absent"""
    h = os.path.join(REPO, 'src/pnumpy/PNUMPY.h')
    if os.path.exists(h):
        return None
    dst = os.path.join(d, 'repo')
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns('.git', 'build'))
    subprocess.run([NUMPY_PY, '-c', 'import _add_newdocs;_add_newdocs.main()'], cwd=dst, check=True, stdout=subprocess.DEVNULL)
    return os.path.join(dst, 'src/pnumpy')


def build_ir(extra_src=(), defines=(), keep=None, overlay=None):
    """returns path of the linked textual IR.  overlay: dict relative-path -> new text"""
    d = keep or scratch()
    os.makedirs(d, exist_ok=True)
    inc = ['-I' + x for x in includes()] + ['-I' + os.path.join(REPO, 'src')]
    g = pnumpy_h(d)
    if g:
        inc.append('-I' + g)
    procs = []
    outs = []
    for f in list(sources()) + list(extra_src):
        o = os.path.join(d, f.replace('/', '_') + '.bc')
        cmd = [LLVM + '/clang++', '-c', '-emit-llvm'] + CXX + ['-D' + x for x in defines] + inc + [f, '-o', o]
        procs.append((f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        outs.append(o)
        if len([p for _, p in procs if p.poll() is None]) >= 8:
            procs[len(procs) - 8][1].wait()
    for f, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise Exception('clang failed on %s:\n%s' % (f, out.decode()[-2000:]))
    ll = os.path.join(d, 'all.ll')
    subprocess.run([LLVM + '/llvm-link', '-S'] + outs + ['-o', ll], check=True, stderr=subprocess.DEVNULL)
    return ll
