"""Concrete meaning of the uninterpreted float operations, for evaluating expressions on concrete inputs."""
import struct
import numpy as np

np.seterr(all='ignore')


class NoEval(Exception):
    pass


def dec(v, w):
    return np.frombuffer(v.to_bytes(w // 8, 'little'), np.float32 if w == 32 else np.float64)[0]


def enc(x, w):
    return int.from_bytes((np.float32 if w == 32 else np.float64)(x).tobytes(), 'little')


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ufeval(widths=None):
    def f(name, w, args, aw=None):
        n = name.split('_')[0]
        if n in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = dec(args[0], w), dec(args[1], w)
            r = {'fadd': np.add, 'fsub': np.subtract, 'fmul': np.multiply, 'fdiv': np.divide}[n](a, b)
            return enc(r, w)
        if n == 'frem' or n in ('fmod', 'fmodf'):
            return enc(np.fmod(dec(args[0], w), dec(args[1], w)), w)
        if n == 'fsqrt':
            return enc(np.sqrt(dec(args[0], w)), w)
        if n.startswith('fround'):
            m = int(n[6:])
            return enc({0: np.rint, 1: np.floor, 2: np.ceil, 3: np.trunc}[m & 3](dec(args[0], w)), w)
        if n == 'fpext':
            return enc(dec(args[0], 32), 64)
        if n == 'fptrunc':
            return enc(dec(args[0], 64), 32)
        if n == 'sitofp':
            return enc((np.float32 if w == 32 else np.float64)(sx(args[0], aw[0])), w) if aw else _no(name)
        if n == 'uitofp':
            return enc((np.float32 if w == 32 else np.float64)(args[0]), w)
        m = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan'}
        base = name[3:].rsplit('_', 1)[0] if name.startswith('np_') else m.get(name, name)
        if hasattr(np, base) and len(args) == 1:
            return enc(getattr(np, base)(dec(args[0], w)), w)
        if base in ('power', 'pow') and len(args) == 2:
            return enc(np.power(dec(args[0], w), dec(args[1], w)), w)
        raise NoEval(name)
    return f


def _no(n):
    raise NoEval(n)
