"""python3 tools/props.py: writes properties.jsonl and MANIFEST.json from the entries below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
SYM = 'symbolic execution of the clang IR of the current sources, obligations discharged by z3 (QF_UFBV), counterexamples replayed on a g++ build of the sources'


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note='', technique=SYM, level='model_checking', na=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    P.append(d)
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CH.append(dict(property=id, quick_cmd='python3-vt checks/run.py ' + id, thorough_cmd='python3-vt checks/run.py ' + id,
                       technique=technique, level=level, level_note=note))


CH = []
LOOPNOTE = ('Holds for every element value at the listed layouts and sizes; IEEE + - * / are uninterpreted functions of their operands, everything else on '
            'the values is bit-precise. Trusts clang -O1 as the front end (the module itself is built with gcc), the IR interpreter (compared with the real '
            'build on concrete inputs on every run) and z3.')

prop('P01', 'Accelerated binary arithmetic stores what NumPy stores',
     'For every hooked binary arithmetic, bitwise, shift, logical and minimum/maximum operation and every hooked dtype, the array an accelerated call fills holds, '
     'element by element, what NumPy\'s own loop would have stored (wraparound, shift counts, signed zero, nan and infinity included). This does not depend on '
     'length, strides, alignment, scalar operands, or on the output being one of the inputs or overlapping one as NumPy permits.',
     ['inputs'], 'all element values; layouts: contiguous, scalar either side, strided, reversed, byte offsets, in place, forward overlap; lengths around one to five vector widths',
     'The tests compare a few lengths of arange/ones data per operation; vector remainders, in-place aliasing, unaligned bases and special values are hit by accident only.',
     ['src/atop/ops_binary.cpp', 'src/pnumpy/module_init.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('vector and scalar inner loops', 'src/atop/ops_binary.cpp: SimpleMathOpFast, SimpleMathOpSlow and relatives'), ('dispatch to the loop', 'src/pnumpy/_pnumpy.cpp: AtopBinaryMathFunction')],
     ['the output array of numpy ufunc calls after import pnumpy'], note=LOOPNOTE)
prop('P02', 'Accelerated comparisons store what NumPy stores',
     'For every hooked dtype, ==, !=, <, <=, > and >= fill the boolean output with exactly 0 or 1 per element as NumPy defines the comparison, unordered floats and signed zero included. '
     'This does not depend on length, strides, alignment, scalar operands, or on the boolean output being a view of an input.',
     ['inputs'], 'all element values; the layouts of P01 plus a boolean view of either input as output; lengths around one to five vector widths',
     'Tests compare small arange arrays; sign and width mix-ups, remainder handling and aliasing only show on particular values, lengths and layouts.',
     ['src/atop/ops_compare.cpp', 'src/pnumpy/_pnumpy.cpp'], [('vector comparison loops', 'src/atop/ops_compare.cpp: CompareAny and the per-width variants')],
     ['the output array of comparisons after import pnumpy'], note=LOOPNOTE)
prop('P03', 'Accelerated unary operations store what NumPy stores',
     'absolute, negative, sign, invert, logical_not, isnan, isinf, isfinite, signbit, floor, ceil, trunc, rint, sqrt and the other hooked non-transcendental unary operations '
     'store for each element what NumPy\'s loop stores, for every hooked dtype. This does not depend on length, strides, alignment or in-place use.',
     ['inputs'], 'all element values; 12-20 layouts; lengths around one to five vector widths',
     'Tests use a handful of values per operation; halves, signed zeros, nan payloads, minimum integers and odd strides are not enumerated.',
     ['src/atop/ops_unary.cpp', 'src/pnumpy/_pnumpy.cpp'], [('unary loops', 'src/atop/ops_unary.cpp: UnaryOpFast and the strided variants')],
     ['the output array of unary ufuncs after import pnumpy'], note=LOOPNOTE)
prop('P04', 'Transcendental loops treat every element independently and alike',
     'For the hooked trigonometric, logarithmic and exponential operations every output element is a function of its own input element only, and it is the same function '
     '(up to the one scalar and one vector formula) whatever the length, position, stride, alignment or aliasing of the operands.',
     ['inputs'], 'all element values; 12-20 layouts; lengths around one to five vector widths',
     'Tests compare one contiguous array with a tolerance; remainder lanes and strided or in-place calls are sampled at best.',
     ['src/atop/ops_trig.cpp', 'src/atop/ops_log.cpp', 'src/atop/avx_mathfun.h'], [('vector loops', 'src/atop/ops_trig.cpp: UnaryOpFast, UnaryOpSlow variants')],
     ['the output array of np.sin, np.exp, ... after import pnumpy'],
     note='Holds for every element value at the listed layouts and sizes; float arithmetic and libm are uninterpreted functions, so accuracy is not covered (see P27).')
prop('P05', 'Accelerated reductions reduce exactly the given elements',
     'A reduction of a hooked dtype combines the start value with every element once: integers, bitwise, logical and minimum/maximum exactly as NumPy (nan propagation included), '
     'float sums and products over exactly those operands in some order. Length, stride, alignment and the start value do not matter.',
     ['inputs'], 'all element and start values; lengths 0 to 6 vector widths and a remainder; strides 1, 2, -1, 0; offset bases',
     'Tests reduce a few lengths of arange data and compare with a tolerance; a dropped remainder element, a repeated lane or a lost nan needs a particular length and value.',
     ['src/atop/ops_binary.cpp', 'src/pnumpy/_pnumpy.cpp'], [('reduction loops', 'src/atop/ops_binary.cpp: ReduceMathOpFast, ReduceMathOpFastUpcast and the slow loops')],
     ['the result of ufunc.reduce, sum, prod, min, max, any, all'], note=LOOPNOTE + ' Float sums/products are compared as multisets of operands.')
prop('P06', 'Accelerated loops touch only the memory of their operands',
     'No hooked loop, elementwise or reducing, reads or writes a byte outside the elements its operands describe, needs an alignment NumPy does not give, or changes bytes between or '
     'outside the output elements. This holds for every length, stride, alignment and aliasing NumPy may pass, the empty call included.',
     ['inputs'], 'all element values; all layouts of P01-P05; 15 or more lengths from 0 to 5 vector widths and a remainder',
     'An overread or a stray write of a few bytes rarely crashes, and the suite runs without sanitizers and with allocator-aligned arrays.',
     ['src/atop/ops_binary.cpp', 'src/atop/ops_compare.cpp', 'src/atop/ops_unary.cpp', 'src/atop/ops_trig.cpp', 'src/atop/ops_log.cpp'],
     [('loop bounds and remainders', 'src/atop/ops_*.cpp')], ['memory around operand buffers'], note='Every load and store of the executed code is checked against the operand buffers (bounds and '
     'required alignment); replayed on the real module with guard pages. Bounds as stated.')

exec(open(os.path.join(V, 'tools', 'props2.py')).read())

prop('P27', 'Accelerated transcendental functions are as accurate as NumPy\'s',
     'sin, cos, tan, exp, log and the other hooked transcendental functions agree with NumPy\'s results to within a few units in the last place for every input.',
     ['inputs'], 'all float32/float64 inputs', 'The tests sample a few hundred values in a small range.', ['src/atop/ops_trig.cpp', 'src/atop/ops_log.cpp', 'src/atop/avx_mathfun.h'],
     [('polynomial approximations', 'src/atop/avx_mathfun.h')], na='accuracy of float polynomial approximations against a real-valued function needs bit-precise reasoning about long chains of IEEE '
     'multiplications plus libm as oracle; neither is within reach of the SMT solver (one float32 multiplication chain of this depth already does not terminate)')

if __name__ == '__main__':
    P.sort(key=lambda d: d['id'])
    CH.sort(key=lambda d: d['property'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3-vt checks/setup.py', checks=CH, not_applicable=NA)
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    import collections
    assert not [k for k, n in collections.Counter(p['id'] for p in P).items() if n > 1]
    print(len(P), 'properties', len(CH), 'claimed')
