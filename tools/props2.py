THR = ('symbolic execution of the clang IR of the caller and of the worker function under a rely-guarantee encoding of the interleavings (atomic counters symbolic at every access), '
       'obligations discharged by z3 (linear integer slice first, QF_BV otherwise), counterexample schedules replayed on the real module')
THRNOTE = ('Caller and workers are executed separately: every atomic counter may change between accesses as any number of other threads may change it (monotone counters, guarantees checked at '
           'each access), so the verdict covers every interleaving of one section within K units per thread. Sequentially consistent memory; one section at a time. Trusts clang -O1, the IR '
           'interpreter and z3. Counterexamples are replayed with real threads that are delayed at the chosen points.')

prop('P07', 'Threaded element-wise calls process each element once, none twice',
     'When an element-wise call of a hooked operation is long enough to be split over worker threads, the pieces processed by all threads together cover every element exactly once, with '
     'the call\'s own operands, steps and loop, and the call returns only after the last piece is done. This holds for every interleaving, worker count, zigzag setting and length; calls whose '
     'operands overlap so that pieces depend on each other are not split.',
     ['schedules', 'inputs'], 'all interleavings of the caller and up to 15 workers, lengths 65536 to 2^40, addresses and steps of the operands, worker counts 1, 2, 3, 4, 7, 14, zigzag on and off, acceleration on and off',
     'A lost or doubled block needs a particular interleaving of two counters; the tests run each operation a few times on arrays of a few hundred thousand elements.',
     ['src/atop/threads.h', 'src/atop/threads.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('ring, channels, tickets', 'src/atop/threads.h: stMATH_WORKER_ITEM, CMathWorker::WorkMain'), ('callbacks and overlap test', 'src/pnumpy/_pnumpy.cpp: *ThreadCallback*, CanSplitLoop, Atop*MathFunction')],
     ['outputs of ufunc calls on arrays of 65536 or more elements'], technique=THR, note=THRNOTE)
prop('P08', 'Threaded reductions combine every element exactly once',
     'A reduction long enough to be split gives the same result as the unsplit one: each element enters exactly one chunk result, each chunk result starts from the right start value in its own '
     'slot, the start value of the reduce enters as often as the operation allows, and the caller combines all slots after the last chunk is done, under every interleaving.',
     ['schedules', 'inputs'], 'all interleavings, lengths 65536 to 2^40, strides es, 2es, -es, worker counts 1-4, 7, 14, zigzag on and off, acceleration on and off; every hooked reduce loop',
     'A wrong start value or a slot combined too early shows only for some schedules or for values the start value matters for.',
     ['src/atop/threads.h', 'src/pnumpy/_pnumpy.cpp'],
     [('chunk callbacks', 'src/pnumpy/_pnumpy.cpp: ReduceThreadCallbackStrided, ReduceThreadCallbackNumpy'), ('start value and combination', 'src/pnumpy/_pnumpy.cpp: GetReduceStartVal, AtopBinaryMathFunction')],
     ['results of reductions of 65536 or more elements'], technique=THR, note=THRNOTE + ' Float sums of only negative zeros may be either zero.')
prop('P10', 'Chunked parallel sections run every chunk once and then return',
     'DoMultiThreadedChunkWork calls its callback for disjoint chunks that together cover 0..length-1 exactly once, each within range and with the caller\'s argument, whatever the number of workers '
     'asked for or configured, and returns after the last callback ended; without threads or for small lengths it makes one call for everything.',
     ['schedules', 'inputs'], 'all interleavings, lengths up to 2^40, wake-up requests 0, 1, 2, 3, 5, 20, worker counts 1-14, zigzag, threading off',
     'The tests reach this code only through getitem, astype and sorting with one timing of the threads.',
     ['src/atop/threads.h'], [('chunk section', 'src/atop/threads.h: DoMultiThreadedChunkWork, WorkMain, GetNextWorkBlock'), ('users', 'src/pnumpy/getitem.cpp, src/pnumpy/sorting.cpp, src/atop/fill.cpp, src/atop/sort.cpp')],
     technique=THR, note=THRNOTE)
prop('P11', 'Indexed parallel sections run every index once and then return',
     'DoMultiThreadedWork calls its callback exactly once for every index 0..n-1, with the caller\'s argument, on whichever thread, and returns only when all calls have ended; this does not depend '
     'on how many workers wake up, when, or what earlier sections left in the work item.',
     ['schedules', 'inputs'], 'all interleavings, up to 2^29 items, worker counts 1-14, wake-up requests 0, 1, 2, 3, 5, 20, zigzag, threading off, arbitrary stale work items',
     'An index run twice or skipped needs a worker that arrives late or a stale work item; tests see one timing.',
     ['src/atop/threads.h'], [('indexed section', 'src/atop/threads.h: DoMultiThreadedWork, WorkMain, GetNextWorkIndex'), ('users', 'src/pnumpy/sorting.cpp, src/atop/sort.cpp, src/atop/recarray.cpp')],
     technique=THR, note=THRNOTE)
prop('P12', 'A late worker never runs work of a finished or a half-prepared section',
     'Whenever a worker wakes up, early, late, spuriously or still busy with an earlier section, every piece of work it runs belongs to the section from which it drew it, is run with '
     'exactly the arguments of that section, and its draw is not undone by the caller setting up that section\'s counters afterwards.',
     ['schedules', 'histories'], 'two consecutive sections of any two kinds after 1030 earlier ones (ring reuse), every point in time for each access of the worker, worker counts 1, 2, 4, 14, zigzag and acceleration on and off',
     'The window is a few instructions wide between publishing a work item and a worker\'s next load; no test can hold a thread there.',
     ['src/atop/threads.h', 'src/atop/threads.cpp'],
     [('publication and retirement', 'src/atop/threads.h: SetWorkItem, CompleteWorkItem, GetWorkItem'), ('worker loop', 'src/atop/threads.cpp: WorkerThreadFunction')],
     technique='the calling thread\'s history is produced by executing its IR; the worker\'s IR is executed symbolically against it with symbolic access times, obligations discharged by z3; '
     'counterexample schedules replayed on the real module with slowed-down threads',
     note='Two consecutive operations with given lengths, one unit per wake-up; the caller runs all units of its own sections (other workers only advance counters). Sequentially consistent '
     'memory, compiled store order taken from the clang -O1 IR.')

API = ('symbolic execution of the clang IR of the Python-level function, from the argument tuple to the returned array, over a model of the CPython/NumPy C API; array bytes are symbolic; '
       'obligations discharged by z3 (QF_BV), counterexamples replayed on the real module in page-guarded buffers and under AddressSanitizer')
APINOTE = ('Arrays are the bounded shapes listed in the evidence; the C API functions used are modelled (allocation, descriptors, reference counts, errors). The parts of a parallel section are executed '
           'one after the other; that each runs exactly once is P10 to P12. Trusts clang -O1, the IR interpreter and z3.')
prop('P18', 'Boolean getitem returns exactly the selected elements in order',
     'getitem(values, mask) returns a new one-dimensional array of the dtype of values (byte order, unit, item size kept) that holds exactly the elements whose mask is true, in their order, for '
     'every mask, item size, stride and length, below and above the threading limit; it reads and writes only inside the arrays, leaves its inputs unchanged, and refuses what it cannot handle with an error.',
     ['inputs'], 'every mask and every value; 19 item kinds of 1 to 32 bytes; contiguous, strided, reversed, padded, multi-dimensional; 0-14 elements fully symbolic, up to 98304 with some free mask elements',
     'The copy loops work on groups of 8 and the counter on groups of 32 in runs of 255: a mistake shows for certain masks at certain positions and item sizes only.',
     ['src/pnumpy/getitem.cpp'], [('counting', 'src/pnumpy/getitem.cpp: SumBooleanMask, BooleanCount'), ('copying', 'src/pnumpy/getitem.cpp: BooleanIndexInternal')],
     ['results of getitem(values, mask)'], technique=API, note=APINOTE + ' Mask bytes are 0 or 1.')
prop('P19', 'Fancy getitem returns values[index], or the default out of range',
     'getitem(values, index[, default]) returns for each index i with -n <= i < n the element values[i], bit for bit, and for every other index the default, or, when none is given, the invalid value '
     'of the dtype (smallest signed, largest unsigned, nan, NaT, False, empty string); for every integer index type and value, item size and stride, below and above the threading limit; it never reads '
     'or writes outside the arrays and leaves its inputs unchanged.',
     ['inputs'], 'every index value of all 10 integer types, every element value; 19 item kinds; contiguous, strided, reversed, padded, multi-dimensional; up to 6 values (260 with 8-bit indexes), up to 131072 indexes with some free ones; any int or float default',
     'The range test has to be right at both ends for each of 10 index types, 6 item classes and two loops; a wrong one reads memory near the array and usually returns something.',
     ['src/pnumpy/getitem.cpp', 'src/pnumpy/common.cpp'],
     [('loops', 'src/pnumpy/getitem.cpp: GetItemInt, GetItemUInt, GetItemIntVariable, GetItemUIntVariable'), ('dispatch, threads, default', 'src/pnumpy/getitem.cpp: GetItemCallback, getitem; src/pnumpy/common.cpp: ConvertScalarObject, GetDefaultForType')],
     ['results of getitem(values, index)'], technique=API, note=APINOTE + ' Defaults NumPy converts itself (strings, complex, wide integers) are modelled as arbitrary bytes; float defaults for integer values are not decided.')
prop('P20', 'recarray_to_colmajor copies every field exactly',
     'recarray_to_colmajor(records) gives for each field an array of the dtype of that field whose row i is the bytes of that field in record i, for every record layout (padded, overlapping, unaligned, '
     'reordered fields), record size and number of rows, below and above the threading limit; the C function reads only inside the records, writes only inside the columns, and refuses columns or offsets that do not fit.',
     ['inputs'], 'every byte of 0 to 17 records of 1 to 74 bytes; records up to 20000 bytes and up to 49153 rows with some symbolic rows; fields of 1 to 33 bytes at any offset (symbolic 64-bit offsets too); 8 record types through the Python wrapper',
     'The rows are converted in groups whose size depends on the record size, with gathers of 8 and 4 rows and overlapping copies for odd sizes; the tests convert one layout.',
     ['src/atop/recarray.cpp', 'src/pnumpy/conversions.cpp', 'src/pnumpy/recarray.py'],
     [('conversion', 'src/atop/recarray.cpp: ConvertRecArray, RecArrayToColMajor'), ('arguments', 'src/pnumpy/conversions.cpp: recarray_to_colmajor')],
     ['results of recarray_to_colmajor'], technique=API, note=APINOTE + ' The Python wrapper is executed, not encoded: the offsets and columns it passes for 8 record types are then checked symbolically.')

prop('P14', 'sort puts exactly the given values in ascending order',
     'sort(a, kind) returns, and a.sort(kind) / np.sort leave behind, exactly the values that were given, as a multiset of bit patterns, in the ascending order of NumPy (nan last, -0.0 equal to 0.0, bytes and code '
     'points for strings), for every kind, dtype, length, stride, byte order of the array being sorted, and duplicate structure, below and above the threading limit, in whatever order the parts of a '
     'shared sort are finished; it accesses only the values and its own workspace, and refuses or leaves to NumPy what it cannot sort.',
     ['inputs', 'schedules'], 'every value of 0 to 4 elements, one to three symbolic values among 15 to 333 fixed ones; 12 numeric types, bytes and unicode strings; 3 algorithms; strides; 8 parts in any order',
     'Quicksort, heapsort fallback, merges with nan handling and eight parts merged by whichever thread comes second each go wrong only for particular arrangements, sizes and timings; the tests sort random arrays.',
     ['src/atop/sort.cpp', 'src/pnumpy/sorting.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('in-place sorts and merges', 'src/atop/sort.cpp: quicksort_, heapsort_, mergesort0_, ParInPlaceMerge'), ('sharing by threads', 'src/atop/sort.cpp: par_sort, MERGE_SPLITTER, ParMergeInPlaceThreadCallback, IsBuddyBitSet'),
      ('entry points', 'src/pnumpy/sorting.cpp: sort; src/pnumpy/_pnumpy.cpp: AtopSortMathFunction')],
     ['results of np.sort, ndarray.sort and the module function sort'], technique=API,
     note=APINOTE + ' The constant 65536 of the size test is lowered to 16 in the IR so that shared sorts are within reach; replays use 65536 and more elements.')
prop('P15', 'argsort and lexsort return the ordering permutation',
     'argsort and lexsort32/64 return a permutation of 0..n-1 (lexsort with index: of the given index) that puts the values in the ascending order of NumPy, the last key being the primary one; the stable kinds keep '
     'equal elements in order; with cutoffs every partition is ordered by itself and numbered from its own start. Keys are unchanged, nothing outside the arrays is accessed, and cutoffs, '
     'indexes, lengths or types that do not fit are refused with an error.',
     ['inputs', 'schedules'], 'every value of 0 to 4 elements and up to 3 keys, one to three symbolic values among 15 to 333 fixed ones; symbolic cutoffs and start indexes; 12 numeric types, bytes and unicode strings; 8 parts in any order',
     'Index sorts fail silently for nan, ties, partition boundaries or a shared merge that loses stability; the tests compare a few random arrays with NumPy.',
     ['src/atop/sort.cpp', 'src/pnumpy/sorting.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('index sorts and merges', 'src/atop/sort.cpp: aquicksort_, aheapsort_, amergesort0_, ParMergeMerge, single_amergesort, par_amergesort'), ('lexsort', 'src/pnumpy/sorting.cpp: lexsort, SortIndex32, SortIndex64, CMultiListPrepare'),
      ('hook', 'src/pnumpy/_pnumpy.cpp: AtopArgSortMathFunction')],
     ['results of np.argsort, lexsort32 and lexsort64'], technique=API,
     note=APINOTE + ' The constant 65536 of the size test is lowered to 16 in the IR; replays use 65536 and more elements. Shared calls left to NumPy are checked for unchanged arguments only.')

prop('P09', 'Switches and the ledger choose who computes, never what',
     'With atop disabled every hooked inner loop, reduction, sort, argsort, argmax, argmin and fill is done by NumPy\'s own function, called once with the arguments the hook got (below the threading limit); with the '
     'ledger enabled every operation gives bit for bit what it gives without, with the same calls of NumPy\'s functions; recording reads and writes nothing outside the arrays and argument blocks, and '
     'the switches are afterwards as the user set them.',
     ['inputs', 'histories'], 'every value; all hooked loops in 3 to 6 layouts (reductions included) of 0 to 40 elements; sort, argsort, argmax, argmin and fill of 23 types; atop off, ledger on, both',
     'The four kinds of loops, reductions and sorts each repeat the test of the switches and the recursion under the ledger; tests use neither switch on more than a few of the hundreds of loops.',
     ['src/pnumpy/_pnumpy.cpp', 'src/pnumpy/ledger.cpp'],
     [('dispatch', 'src/pnumpy/_pnumpy.cpp: AtopBinaryMathFunction, AtopCompareMathFunction, AtopUnaryMathFunction, AtopTrigMathFunction, AtopSortMathFunction, AtopArgSortMathFunction, AtopArgMinMaxMathFunction, AtopArangeMathFunction'),
      ('recording', 'src/pnumpy/ledger.cpp: LedgerRecord, LedgerRecord2')],
     ['result of any NumPy operation after atop_disable or ledger_enable'], technique=API.replace('the Python-level function, from the argument tuple to the returned array,', 'the functions put into NumPy\'s tables,'),
     note='NumPy\'s own functions are stand-ins that record their arguments and store an arbitrary value. Larger (threaded) operations without atop are P07 and P08. Trusts clang -O1, the IR interpreter and z3.')
prop('P13', 'arange fills first + i * (second - first) everywhere',
     'The fill function behind np.arange sets every element i from 2 on to first + i * (second - first), computed in the element type like NumPy does (integers modulo their width), and leaves the first two as '
     'they were; for every type, length and pair of first values, below and above the threading limit; it writes nothing else, and types it does not handle are passed on to NumPy unchanged.',
     ['inputs', 'schedules'], 'every pair of first values; 20 types; 3 to 100 elements, and 65535 to 82000 elements filled by several threads\' chunks',
     'A chunk that starts wrong, a step that wraps or rounds, or a rewritten second element that other threads read shows only for certain types, values and lengths above 65536.',
     ['src/atop/fill.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('fill', 'src/atop/fill.cpp: ArangeFillType, ArangeFill'), ('hook', 'src/pnumpy/_pnumpy.cpp: AtopArangeMathFunction')],
     ['result of np.arange'], technique=API.replace('the Python-level function, from the argument tuple to the returned array,', 'the fill function put into NumPy\'s type tables,'),
     note=APINOTE + ' Float arithmetic is uninterpreted: the same operations in the same order, not their rounding, are compared.')
prop('P21', 'The indexing hook changes no result of array[index]',
     'hook_enable puts one function in the place of NumPy\'s array indexing and reports True, a second call changes nothing and reports False, and hook_disable puts NumPy\'s back in the same way. While hooked, values[mask] with '
     'a boolean array of the same shape gives the selected elements in C order as NumPy does, or is left to NumPy; every other index is passed to NumPy\'s function once, unchanged, with no error left behind; '
     'inputs and reference counts stay as they were.',
     ['inputs', 'histories'], 'every mask and value of up to 10 elements; 10 item types; 0 to 3 dimensions, strided, reversed, either order; masks of other shapes, 10 other index types and 5 objects that are no arrays',
     'The hook sees every indexing operation of the process: masks of another shape, failing attempts that leave an exception set, or a wrong undo break unrelated code and are not tested.',
     ['src/pnumpy/_pnumpy.cpp', 'src/pnumpy/getitem.cpp'],
     [('hook', 'src/pnumpy/_pnumpy.cpp: GetItemHook, hook_enable, hook_disable')],
     ['results of array[index] after hook_enable'], technique=API, note=APINOTE + ' NumPy\'s own indexing function is a stand-in that records its arguments. Mask bytes are 0 or 1.')
