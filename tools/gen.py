#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def prop(id, title, statement, over, qtext, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    P[-1]['_note'] = note
M = 'nntl/interface/math/smatrix.h'
prop('C01', 'Matrix shape, layout and bias bookkeeping stay consistent',
 'For every size, bias mode and batch layout, however a matrix that owns its storage was constructed or resized, its reported sizes, element counts, leading dimension, sample and batch sizes, ranges and column pointers agree with the requested data size plus exactly one bias vector when biases are on. Elements are stored column-major, each in a place of its own, inside the allocation; fresh biases are all ones, the fill operations change exactly the elements they name, and clearing or destroying a matrix frees its storage once.',
 ['inputs', 'histories'], 'all sizes within bounds, all contents, all mode combinations, sequences of two resizes and a clear', 'tests sample a few fixed sizes in the default layout; the guarantee is over every size/mode combination and all contents',
 [M], [('smatrix construction, resize, fill, accessors', M + ':297-1060')], 'symbolic execution of the real header code, exhaustive within data sizes 1..3 (1..4 thorough)')
prop('C02', 'Cloning, copying, moving and comparing matrices is exact',
 'A clone or copy has precisely the data, size, bias mode, bias state and layout of its source (or just its data part for the no-bias variants) and succeeds exactly when the destination can hold it; a refused copy changes nothing. A move hands the storage over, leaves the source empty, and storage is freed exactly once; two matrices compare equal exactly when shape, modes and all elements agree.',
 ['inputs', 'histories'], 'all source/destination sizes, modes, storage kinds and contents within bounds', 'the number of source/destination mode combinations is far beyond the sampled ones',
 [M], [('clone_to, clone_to_no_bias, copy_to, copy_data_skip_bias, move constructors and assignments, comparison', M + ':384-560')], 'sizes 1..3, all mode combinations')
prop('C03', 'Views over external storage and in-place deformation are faithful',
 'A matrix attached to external storage uses exactly that memory with the given size, bias and layout flags, never reads or writes it while attaching or detaching, never frees it, and a column window starts at its first column. Deforming a matrix (columns, rows, batch or sample size, hiding and restoring columns or biases, transposition of the shape) never moves the storage, changes only what it names, and its inverse restores the original matrix bit for bit.',
 ['inputs', 'histories'], 'all sizes, flags and contents within bounds; a deformation followed by its inverse', 'needs every flag combination and all contents',
 [M], [('useExternalStorage*, submatrix_cols_no_bias, smatrix_deform', M + ':1208-1700')], 'sizes 1..3')
prop('C04', 'Data sanity predicates accept exactly what they say',
 'The binary test accepts a matrix or (strided) vector exactly when each of its elements is zero or one, the strict variant additionally refuses negative zero, the no-bias variant looks at data only, the almost-binary test means every element lies within the tolerance of zero or one, and the NaN test accepts exactly matrices without NaN. The bias test accepts strict biases exactly when all are one and holey biases exactly when each is zero or one, in both layouts; no predicate reads outside the vector it is given.',
 ['inputs'], 'every bit pattern of every element, including NaN, infinities and signed zeros', 'a test cannot enumerate bit patterns',
 [M], [('_isBinary*, test_biases_*, test_noNaNs, _isAlmostBinary', M + ':88-232, 670-770')], 'every bit pattern, up to 3 elements')
prop('C05', 'Triangular indexing and element ranges are one to one',
 'Mapping a linear index to coordinates enumerates each element strictly above (or below) the main diagonal exactly once in column order, a triangle of size n has n(n-1)/2 elements for every n, and the past-the-end index maps to the end position. Element, row/column and worker ranges built from a matrix or from bounds describe exactly that region, and a range reports that it fits exactly when it lies inside the matrix.',
 ['inputs'], 'every index of matrices up to the bound and selected large sizes up to a million rows; every size for the count', 'floating-point square roots must round right for every index',
 [M], [('sTrianglCoordsFromIdx, sNumelTriangl, st_range, s_rowcol_range', M + ':873-915, 1710-1820')], 'columns up to 10 (40 thorough), IEEE semantics of sqrt and ceil encoded')
T = 'nntl/interface/threads/'
prop('C06', 'Parallel work is partitioned exactly',
 'For every amount of work and every requested number of threads, the ranges handed to the threads are non-empty, disjoint, balanced to within one item, cover the work exactly, and each goes to a different thread id counted from zero; the reported thread count matches. A parallel reduction passes every partial result exactly once, unaltered, to the final step and returns what that step returns; work of at most one item stays on the calling thread.',
 ['inputs', 'configurations'], 'work sizes up to 2^40, 2..4 hardware threads, any requested thread count', 'tests run a few sizes on one machine configuration',
 [T + 'workers.h', T + 'parallel_range.h', 'nntl/interface/_i_threads.h'], [('Workers::run, Workers::reduce, partition_count_to_workers', T + 'workers.h:150-290')], 'work size symbolic up to 2^40')
prop('C07', 'The worker pool completes every job under every schedule',
 'Under every interleaving, when a parallel run or reduction returns, each item was processed exactly once and all effects are visible to the caller without a data race. Consecutive jobs do not disturb each other, and starting up and destroying the pool always terminates.',
 ['schedules'], 'all interleavings with a bounded number of preemptions at synchronisation operations and atomic accesses', 'a test sees a handful of schedules',
 [T + 'workers.h', T + '_sync_primitives.h'], [('Workers constructor, _run, _reduce, _worker, destructor', T + 'workers.h')], '3 threads, at most 2 (3 thorough) preemptions, happens-before race detection')
prop('C08', 'Background workers run broadcasts and tasks under every schedule',
 'Under every interleaving a broadcast runs exactly once on every background thread and is complete when it returns, also while tasks are pending; no task runs any more once its removal returned; tasks are polled in order of priority. There is no data race on shared bookkeeping, and shutting down always terminates.',
 ['schedules'], 'all interleavings with a bounded number of preemptions', 'a test sees a handful of schedules',
 [T + 'bgworkers.h', T + '_sync_primitives.h'], [('BgWorkers::exec, add_task, delete_tasks, _worker', T + 'bgworkers.h')], '1-2 background threads, at most 2 (3 thorough) preemptions')
exec(open(os.path.join(H, 'tools', 'props_more.py')).read())
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
man = dict(version=1, setup_cmd='make -C engine OUT=../build', checks=[dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'], technique='solver-based checking: symbolic execution of LLVM IR of the real code, assertions decided by Z3, counterexamples replayed natively', level='other', level_note='bounded: ' + p['_note']) for p in P], not_applicable=NA)
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')
