#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
ML = 'src/memory_layout/'
p('C01', 'Tiling re-lays a matrix out as an exact permutation of its elements',
  'Converting a row-major array of any dimensionality whose extents are multiples of the tile extents into tiled form yields an array of the same length in which tiles follow each other in row-major tile order and the elements inside each tile in row-major order. Every source element appears exactly once, at exactly that position, and the source is left unchanged. This holds for every element type, allocator and (also non-square) combination of tile sizes and extents.',
  ['inputs', 'configurations'], 'all dimensionalities, extents, tile extents (per direction different), element types and allocators',
  'Both existing tests use one 256x256 double matrix with 4x4 tiles and look at the four corner tiles only; non-square shapes, rectangular tiles, 1-D/3-D and interior tiles are never looked at.',
  [ML+'tile_array.hpp', ML+'tiling_info_dim.hpp', ML+'loop_nest.hpp'],
  [('tile loop + skipped-tile offset', ML+'tile_array.hpp:tile_dim, tile_dim_indices'), ('inner/outer flat index computation', ML+'tile_array.hpp:tile_dim_indices')],
  [('tiled', 'output array', ML+'tile_array.hpp:make_tiled')], ['return value of the tiling call'])
p('C02', 'A tile view aliases exactly its own tile',
  'A view on a tile of a tiled array gives, through flat offset, coordinate array and argument-list access alike, references to exactly the elements of that tile in row-major order; reads see the current array and writes reach exactly that one element of the array. The reported tile coordinates, tile counts per direction and tile size are those of the layout. This holds for every tile of every layout and any sequence of reads and writes through any number of views.',
  ['inputs', 'histories', 'configurations'], 'all layouts, all tiles, all interleaved sequences of reads/writes through several views',
  'The tests read four corner tiles of one square layout; they never write through a view, never use flat or array indexing, size() or the tile counts.',
  [ML+'tile_view.hpp', ML+'tiling_info_dim.hpp'],
  [('base offset of a tile', ML+'tile_view.hpp:tile_view ctor'), ('flat_index inside the tile', ML+'tile_view.hpp:flat_index')],
  [('base_offset', 'first element of the tile in the tiled array', ML+'tile_view.hpp')], ['tile view accessors'])
p('C03', 'Tile iteration visits every tile exactly once, in row-major tile order',
  'Iterating over a tiled array calls the callback exactly once per tile, in row-major order of the tile coordinates, each time with a view bound to that tile of that array. The callback may modify elements through the view; modifications land in the iterated array and nowhere else.',
  ['inputs', 'configurations'], 'all dimensionalities, extents, tile extents',
  'The test iterates one square layout and its callback checks contents of 4 of 4096 tiles; it would not notice a missing last tile row in other shapes, rectangular tiles or dimensions other than two.',
  [ML+'tile_iterator.hpp', ML+'tile_view.hpp'],
  [('recursive tile loop', ML+'tile_iterator.hpp:iterate_tile_dim')], [], ['callback invocations'])
p('C04', 'Undoing a tiling restores the original array',
  'Removing the tiling from an array returns the row-major array it was made from, and tiling that result again gives back the tiled array; the argument is left unchanged. This holds for every dimensionality, element type and combination of extents and tile extents that divide them, square or not.',
  ['inputs', 'configurations'], 'all dimensionalities, extents, tile extents, contents',
  'No test calls the inverse conversion at all.',
  [ML+'tile_array.hpp', ML+'util.hpp', ML+'tile_iterator.hpp'],
  [('per-tile scatter', ML+'tile_array.hpp:undo_tiling'), ('row-major flat index', ML+'util.hpp:flat_index')], [], ['return value'])
p('C05', 'Loop nests call the body once per lattice point, in lexicographic order',
  'A loop nest over given lower bounds, upper bounds and positive steps calls its body exactly once for every lattice point (bounds lower-inclusive, upper-exclusive, upper need not be a multiple of the step), last dimension fastest, and not at all when some dimension is empty (the index type must be able to represent every upper bound plus one step). Both the plain-array and the std::array form, the argument-list form and the form in the learning example behave alike, for any number of dimensions and index type.',
  ['inputs', 'configurations'], 'all dimensionalities, bounds, steps, index types, both array forms',
  'Loop nests are only reached through one square tiling with lower bound 0 and step 1.',
  [ML+'loop_nest.hpp', ML+'index_iterator.hpp', 'src/variants/index_iterator.hpp', 'learning/MetaProgrammingCPP.cpp'],
  [('template recursion', ML+'loop_nest.hpp:execute_looped')], [], ['callback invocations'])
p('C06', 'Flat indices are the row-major numbering of coordinates',
  'The flat index of a coordinate with respect to given extents is its position in row-major order: distinct coordinates inside the extents get distinct indices, together exactly 0 to (product of the extents)-1, in lexicographic order. Both the plain-array and the std::array form agree, also for extents that differ per dimension.',
  ['inputs', 'configurations'], 'all dimensionalities, extents and coordinates',
  'No test calls it.',
  [ML+'util.hpp', ML+'tile_view.hpp'], [('stride accumulation', ML+'util.hpp:flat_index')], [], ['return value'])
p('C07', 'Blocked parallel index iteration visits every index exactly once',
  'Iterating an index range under a blocking policy calls the body exactly once for every index point of the range (spaced by the final steps, which divide the block sizes) and for no point outside it, whatever blocking levels are stacked, whichever dimensions of a level are marked parallel, whether or not block sizes divide the range, and in whatever order or interleaving the parallel parts execute. Points that differ only in dimensions never marked parallel are processed one after the other in ascending block order.',
  ['inputs', 'configurations', 'schedules'], 'all ranges, stacks of blocking levels, parallel-dimension masks and task schedules',
  'Only reachable with HPX; the repository tests use one fixed policy on divisible sizes and one schedule per run, and do not run here at all.',
  [ML+'index_iterator.hpp', 'src/variants/index_iterator.hpp', 'src/variants/looped.hpp'],
  [('policy stack pop', 'index_iterator.hpp:blocking_pseudo_execution_policy'), ('parallel/serial dimension split', 'index_iterator.hpp:iterate_indices'), ('multi-dimensional iterator', 'index_iterator.hpp:dim_index_iterator')], [], ['callback invocations'])
p('C08', 'The naive reference products are exact for every size and thread count',
  'The reference multiplication returns the product of A and B, and its transposed variant the product of A and the transpose of the given B, for every N (including 0 and 1), every element type and every number and interleaving of threads. Neither operand is modified.',
  ['inputs', 'schedules'], 'all N, all matrix contents, all team sizes and interleavings',
  'test_naive needs HPX and compares a few sizes with fixed data; races appear only under particular interleavings.',
  ['src/reference_kernels/naive.hpp'], [('row-parallel triple loop with private accumulator', 'src/reference_kernels/naive.hpp')], [], ['return value'])
p('C09', 'Block kernels compute exactly the requested block of the product',
  'Each block kernel, given A, B (or B transposed) and the position and edge of a square result block that lies inside the matrix, leaves in the zero-initialised output block exactly the corresponding block of the product, for every block position and size it supports and, for the blocked kernel, every input chunk size including ones that exceed or do not divide N. It modifies nothing but the output block and reads nothing outside A and B.',
  ['inputs', 'configurations'], 'all N, block positions, block edges, chunk sizes and contents',
  'No test that runs here touches these kernels; the HPX tests use chunk sizes that divide N only.',
  ['src/reference_kernels/kernel.hpp', 'src/variants/components/multiplier.cpp'],
  [('k-chunk loop with local copies', 'src/reference_kernels/kernel.hpp:kernel_transposed_blocked'), ('kernel selection', 'src/variants/components/multiplier.cpp:calculate_submatrix')], [], ['output block'])
p('C10', 'The single-node task algorithm is exact under every task schedule',
  'The single-node recursive algorithm returns the exact product (of A and B, or of A and the transpose of the given B when told B is transposed) for every N, block sizes including 0 (= no blocking) and repetition count, regardless of the order in which spawned tasks and continuations run. It always terminates, and no task still runs when the result is returned.',
  ['inputs', 'configurations', 'schedules'], 'all N, block settings, matrices and all orders of task and continuation execution',
  'The tests need HPX, use power-of-two sizes with one pair of equal block sizes, and observe one arbitrary schedule per run.',
  ['src/variants/single.cpp', 'src/variants/components/recursive.cpp', 'src/variants/components/multiplier.cpp'],
  [('quad-tree decomposition, continuation assembly, wait for all', 'src/variants/components/recursive.cpp:distribute_recursively'), ('name registration/lookup', 'src/variants/single.cpp')], [], ['return value'])
p('C11', 'The distributed work schedule covers the result matrix exactly once',
  'For every matrix size, number of nodes, minimum package size and balance limits, schedule construction terminates and the square work packages of all nodes together cover every element of the result matrix exactly once, inside the matrix and without empty packages. Every node list is present even if a node gets no work.',
  ['inputs', 'configurations'], 'all N (also odd and 1), node counts, minimum sizes and limits',
  'Every existing test runs on one node, so the schedule is never really exercised; nothing inspects it.',
  ['src/variants/static_improved.cpp', 'src/variants/matrix_multiply_work.hpp'],
  [('quartering of a package and reassignment of two quarters', 'src/variants/static_improved.cpp:create_schedule')],
  [('all_work/total_work', 'packages and assigned element count per node', 'src/variants/static_improved.cpp:create_schedule')], ['returned schedule'])
p('C12', 'Work balancing stops only when balanced or when nothing can be moved',
  'The constructed schedule either meets one of the two balance limits (difference of assigned elements below the absolute limit, or below the relative limit with respect to the least loaded node) or the most loaded nodes hold no package that may still be split without increasing the imbalance. A package is only split when its edge exceeds the configured minimum and is even, and a distribution that already meets a limit is not split further. Half of a split package moves from a most loaded to a least loaded node.',
  ['inputs', 'configurations'], 'all N, node counts, minimum sizes and limits',
  'As for C11; the limits are passed as "unused" zeros by every test.',
  ['src/variants/static_improved.cpp'], [('stop test', 'src/variants/static_improved.cpp:fulfills_constraints'), ('candidate selection', 'src/variants/static_improved.cpp:create_schedule')], [], ['returned schedule'])
p('C13', 'The distributed algorithm is exact for any node count and schedule',
  'The distributed algorithm returns the exact product for every matrix size, transposition flag, number of nodes, balance parameters, block sizes and repetition count, whatever the order in which nodes finish their packages. With more than one node the root node computes nothing; every package is computed on the node it was assigned to.',
  ['inputs', 'configurations', 'schedules'], 'all N, node counts, parameters and completion orders',
  'Tests run on one node only, with one schedule; they need HPX and do not run here.',
  ['src/variants/static_improved.cpp', 'src/variants/pseudodynamic.cpp', 'src/variants/components/recursive.cpp', 'src/variants/components/multiplier.cpp'],
  [('root exclusion and distribution', 'src/variants/static_improved.cpp:matrix_multiply'), ('insertion of sub-results', 'src/variants/static_improved.cpp:insert_submatrix')], [], ['return value', 'placement of component creation'])
p('C14', 'The loop-based parallel variants are exact for all sizes and schedules',
  'The three loop-based variants (parallel-algorithm, looped and semi-automatic blocking), which take B transposed, return the exact product of A and the untransposed B for every N and every positive block sizes, also blocks larger than N or not dividing N, under every execution order of the parallel parts.',
  ['inputs', 'configurations', 'schedules'], 'all N, block sizes, matrices, orders of parallel iterations',
  'Tests need HPX and use block size 1 for N<=8 and 128 for multiples of 128; no other combination is tried.',
  ['src/variants/algorithms.hpp', 'src/variants/looped.hpp', 'src/variants/semi.cpp', 'src/variants/index_iterator.hpp'],
  [('block loops with local copies', 'src/variants/algorithms.hpp:matrix_multiply'), ('iterate_indices', 'src/variants/looped.hpp'), ('4x2 register blocking over padded copies', 'src/variants/semi.cpp')], [], ['return value'])
p('C15', 'The padded SIMD variants are exact for every size',
  'The combined, tiled-reference and padded-reference SIMD variants return the exact product for every N, whether or not it is a multiple of their cache- and register-block sizes; the padding never shows in the result. The two reference variants honour the flag that B is given transposed, and the result does not depend on thread count or schedule.',
  ['inputs', 'configurations', 'schedules'], 'all N, matrices, transposition flags, team sizes and schedules',
  'They need HPX or Vc and are not built here; the existing tests cover nine sizes of one of the three and one schedule.',
  ['src/variants/combined.cpp', 'src/reference_kernels/kernel_tiled.cpp', 'src/reference_kernels/kernel_test.cpp'],
  [('padding to block multiples', 'constructors'), ('tile index computation', 'matrix_multiply'), ('register kernel', 'matrix_multiply'), ('skip padding on copy out', 'matrix_multiply')], [], ['return value'])
p('C16', 'Repeating a multiplication never changes its result or its operands',
  'For every algorithm, asking for any positive number of repetitions, calling the same multiplication object several times, and using several objects one after the other on the same operands all return the same product. The matrices passed in by the caller are never modified.',
  ['inputs', 'histories', 'configurations'], 'all algorithms, repetition counts >= 1, call histories',
  'Every test uses exactly one repetition and one call per object.',
  ['src/variants/combined.cpp', 'src/reference_kernels/kernel_tiled.cpp', 'src/reference_kernels/kernel_test.cpp', 'src/variants/single.cpp', 'src/variants/static_improved.cpp', 'src/variants/semi.cpp', 'src/variants/algorithms.hpp', 'src/variants/looped.hpp'],
  [('re-zeroing of accumulators per repetition', 'combined.cpp, kernel_tiled.cpp, kernel_test.cpp:matrix_multiply')], [], ['return values of successive calls'])
p('C17', 'The stand-alone kernels of otherExperiments compute the product',
  'Each stand-alone multiplication kernel, called on suitably aligned matrices with a zeroed result matrix and an n that is a multiple of its block size, leaves the exact product in the result (with B given transposed for the kernels that take it so) and modifies neither operand, for any contents and any number of threads.',
  ['inputs', 'schedules'], 'all kernels, supported n, contents, thread counts',
  'The benchmark is built but never run, and its only check is the norm of 2*identity for n=4096.',
  ['otherExperiments/multNaive.cpp', 'otherExperiments/multTransposed.cpp', 'otherExperiments/multCounter.cpp', 'otherExperiments/multBlocked.cpp', 'otherExperiments/multExchanged.cpp', 'otherExperiments/multRegister.cpp', 'otherExperiments/multIntrinLoop.cpp', 'otherExperiments/multGPU.cpp', 'otherExperiments/multGPUASM.cpp', 'otherExperiments/multASM.cpp'],
  [('blocked loops, local copies, lane sums', 'otherExperiments/mult*.cpp')], [], ['result matrix'])
p('C18', 'The command line runs the requested multiplication or refuses it',
  'For every combination of options the program runs exactly the requested algorithm on the requested size and prints its timing, or refuses: an unknown algorithm name ends with a message naming it and exit status 1, an algorithm that cannot handle the requested transposition ends with a failure and no result, and asking for help prints the option summary and multiplies nothing. A successful run ends with status 0.',
  ['inputs', 'configurations'], 'all option combinations',
  'The program is never run by the tests (CI ran a single 4x4 invocation).',
  ['src/matrix_multiply_application/matrix_multiply.cpp'], [('option table and dispatch chain', 'hpx_main, main')], [], ['exit status', 'standard output'])
p('C19', "The program's self-check reports exactly whether the result is right",
  'When checking is requested, the program prints that the check passed if and only if the computed matrix has the right size and agrees with the reference product element by element up to 1e-10, and otherwise prints that it failed; a single wrong, missing or non-finite element is enough. The verdict does not depend on the algorithm, repetition count or verbosity.',
  ['inputs', 'configurations'], 'all algorithms, sizes, transposition flags and all (wrong) result matrices',
  'The self-check is never exercised by a test, least of all with a wrong result.',
  ['src/matrix_multiply_application/matrix_multiply.cpp', 'src/reference_kernels/naive.hpp'], [('element-wise comparison', 'main')], [], ['standard output'])
p('C20', 'Matrix builders and transposition produce exactly what they promise',
  'For every N, the identity builder returns the N x N identity, the enumerating builder 0..N*N-1 in row-major order, and the random builder N*N values in [0,1) (in double precision) that are the same on every call. Transposing returns an array whose element (i,j) is element (j,i) of the argument, for square and rectangular shapes, so that transposing twice restores the argument; the argument is unchanged.',
  ['inputs', 'configurations'], 'all N, shapes, element types',
  'They are used as helpers by tests that do not run here and never checked themselves.',
  ['src/util/create_identity_matrix.hpp', 'src/util/create_random_matrix.hpp', 'src/util/pattern_matrices.hpp', 'src/util/transpose_matrix.hpp'],
  [('index loops', 'src/util/*.hpp')], [], ['return values'])
p('C21', 'Inconsistent requests are rejected, and errors say why',
  'A tiling or untiling request whose layout description does not match the dimensionality raises the library exception and returns no array; an index iteration whose bounds, blocks or masks do not match the dimensionality is refused and never calls the body. The text of a library exception is its class prefix followed by exactly the message it was created with, for any message and however late it is read.',
  ['inputs', 'histories'], 'all mismatching requests, all messages, any time of reading',
  'No test triggers an error path.',
  [ML+'tile_array.hpp', ML+'memory_layout_exception.hpp', 'src/util/matrix_multiplication_exception.hpp', 'src/variants/index_iterator.hpp'],
  [('dimension checks', ML+'tile_array.hpp'), ('what()', ML+'memory_layout_exception.hpp')], [], ['exceptions'])
p('C22', 'The aligned allocator hands out one aligned, fully owned block',
  'An allocation returns a pointer that is a multiple of the requested power-of-two alignment and whose whole requested extent lies inside memory owned by the allocator object until it is destroyed, when it is released exactly once. A second allocation from the same object is refused without disturbing the first.',
  ['inputs', 'histories'], 'all element types, counts, alignments; all sequences of construct, allocate, use, destroy',
  'No test uses it.',
  ['src/aligned_allocator.hpp'], [('over-allocation and std::align', 'src/aligned_allocator.hpp:alloc'), ('single ownership', 'src/aligned_allocator.hpp')], [], ['returned pointer', 'heap'])
p('C23', 'Concurrently runnable parts never conflict on shared data',
  'In every parallel algorithm, two parts that may run at the same time (threads of a team, iterations of a parallel loop, tasks and continuations not ordered by waiting) never access the same memory location with at least one of them writing. The result is therefore the same for every schedule.',
  ['schedules', 'inputs', 'configurations'], 'all pairs of unordered parts of all algorithms, all schedules',
  'A race shows only under particular interleavings; tests see one arbitrary schedule and never look at memory accesses.',
  ['src/reference_kernels/naive.hpp', 'src/reference_kernels/kernel_tiled.cpp', 'src/reference_kernels/kernel_test.cpp', 'src/variants/combined.cpp', 'src/variants/algorithms.hpp', 'src/variants/semi.cpp', 'src/variants/components/recursive.cpp', 'src/variants/static_improved.cpp', 'src/variants/index_iterator.hpp'],
  [('disjoint result blocks per task', 'all variants'), ('k dimension never parallel', 'src/variants/combined.cpp'), ('wait before return', 'src/variants/components/recursive.cpp')], [], ['memory accesses of tasks'])
p('C24', 'No operation touches memory outside its operands and own buffers',
  'For all supported arguments, no layout operation, kernel or multiplication algorithm reads or writes outside live storage: accesses stay inside the operands, the result and buffers it allocated, and nothing is used after it was released. This includes sizes smaller than a block and sizes that are not multiples of any block.',
  ['inputs', 'configurations', 'schedules'], 'all algorithms, sizes, block settings',
  'Stray accesses usually go unnoticed by tests that only compare results.',
  ['src/reference_kernels/kernel.hpp', 'src/reference_kernels/kernel_test.cpp', 'src/reference_kernels/kernel_tiled.cpp', 'src/variants/algorithms.hpp', 'src/variants/semi.cpp', 'src/variants/looped.hpp', 'src/variants/combined.cpp', ML+'tile_array.hpp'],
  [('padding and bounds of block loops', 'all kernels')], [], ['memory accesses'])
p('C25', 'Printed matrices show every element in place',
  'Printing a matrix writes one line per row with the elements separated by a comma and a blank, in order; the transposed printers write the transpose of the stored matrix. This holds for square and rectangular shapes and for both output channels, and asking for elements beyond the matrix is reported instead of printed.',
  ['inputs', 'configurations'], 'all shapes, contents, printers',
  'No test looks at printed output.',
  ['src/util/util.hpp'], [('checked element access in index loops', 'src/util/util.hpp')], [], ['printed text'])
p('C26', 'Reported times and performance figures describe the run',
  'The total time covers all of the multiplication that was run and neither the preparation and printing of matrices nor the reference computation; the average is the total divided by the number of multiplications done; the performance is 2N^3 operations per multiplication over the total time; the reference and the inner figures likewise relate their own work to their own time. A duration handed back by an algorithm is that of the call, whatever the variable held before.',
  ['inputs', 'histories', 'configurations'], 'all algorithms, sizes, repetitions, verbosity, time each part takes',
  'Times cannot be compared by a test that runs on a real clock.',
  ['src/matrix_multiply_application/matrix_multiply.cpp', 'src/variants/combined.cpp', 'src/reference_kernels/kernel_tiled.cpp'],
  [('timer around the multiplication', 'src/matrix_multiply_application/matrix_multiply.cpp'), ('repetitions * gflop / duration', 'src/matrix_multiply_application/matrix_multiply.cpp'), ('accumulated inner duration', 'src/variants/combined.cpp')], [], ['printed figures', 'returned duration'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
