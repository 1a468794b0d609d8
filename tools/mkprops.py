#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "The single-node recursive variant computes the exact matrix product",
 "For every matrix size that is a power of two, every pair of finite matrices, B stored plain or transposed as announced, every result-block and input-block size (0 meaning unblocked, blocks larger than or not dividing the matrix included) and every number of repetitions of at least one, the 'single' variant returns the product A*B up to rounding. The result does not depend on the order in which the asynchronous tasks it creates run, and A and B are left unmodified.",
 ["inputs","schedules","configurations"],
 "all power-of-two N, all finite A and B, both storage orders of B, all block sizes, repetitions >= 1, every order in which the runtime may execute tasks and continuations",
 "The 26 unit tests sample N = 4..512 with block sizes that divide N and one uncontrolled schedule each; they need HPX and are not even built here. Non-dividing or disabled blocks, other contents and other task orders are never reached.",
 ["src/variants/single.cpp","src/variants/components/recursive.cpp","src/variants/components/multiplier.cpp","src/reference_kernels/kernel.hpp"],
 [("recursive quartering into four tasks and insertion of each quarter at its offset","src/variants/components/recursive.cpp distribute_recursively, extract_submatrix"),("leaf kernel selection","src/variants/components/multiplier.cpp calculate_submatrix")],
 ["return value of single::matrix_multiply()"])

prop("C02", "The distributed variant computes the exact product on any set of nodes",
 "For every power-of-two matrix size, every number of nodes, every minimum work size, tolerated absolute and relative imbalance, block size, storage order of B and number of repetitions of at least one, the 'pseudodynamic' variant returns the product A*B up to rounding. The result does not depend on how many nodes take part nor on the order in which nodes run tasks and results arrive.",
 ["inputs","schedules","configurations"],
 "all power-of-two N, all finite matrices, 1..k localities, all distribution parameters, every arrival order of the submatrices",
 "The repository's tests run on exactly one locality (and are not built here): the work distribution, the skipped root node and the reassembly of submatrices from several nodes are never executed.",
 ["src/variants/pseudodynamic.cpp","src/variants/static_improved.cpp","src/variants/components/recursive.cpp","src/variants/components/multiplier.cpp"],
 [("one multiplier per compute node looked up by name","src/variants/static_improved.cpp matrix_multiply"),("submatrices inserted at the coordinates of their work package","src/variants/static_improved.cpp insert_submatrix")],
 ["return value of pseudodynamic::matrix_multiply()"])

prop("C03", "Work distribution partitions the result and balances as configured",
 "For every power-of-two matrix size, number of nodes and choice of minimum work size and tolerated imbalances, the square work packages assigned to the nodes cover every component of the result matrix exactly once, and no package is split when it is not larger than the minimum work size. Distribution ends only when the load difference is below the absolute tolerance, or relative to the least-loaded node below the relative tolerance, or when no package of a most-loaded node may be split without increasing the imbalance; if the tolerance is already met at the start, the work stays in one package.",
 ["inputs","configurations"],
 "all power-of-two N, all locality counts, all values of the three tuning parameters including 0",
 "No test looks at the distribution at all; the only multi-node code path is not reachable from a single-process unit test.",
 ["src/variants/static_improved.cpp","src/variants/matrix_multiply_work.hpp"],
 [("greedy halving of packages from the most to the least loaded node","src/variants/static_improved.cpp create_schedule"),("tolerance test","src/variants/static_improved.cpp fulfills_constraints")],
 ["return value of static_improved::create_schedule(num_localities)","static_improved::fulfills_constraints"])

prop("C04", "Parallel-algorithm variants compute the exact product for any blocking",
 "For every matrix size of at least one, every pair of finite matrices with B stored transposed and every result-block and input-block size of at least one (for result blocks also 0, meaning unblocked), whether or not the blocks divide the matrix or exceed it, the 'algorithms', 'looped' and 'semi' variants return the product of A with the untransposed B up to rounding. They never touch memory outside the given matrices, leave A and B unmodified and give the same answer for every partitioning and execution order of their parallel loops.",
 ["inputs","schedules","configurations"],
 "all N >= 1, all finite matrices, all block sizes, every chunking and order of parallel loop bodies",
 "The tests use N and blocks that are powers of two dividing each other and rely on one uncontrolled schedule; remainders, oversized blocks and out-of-bounds traffic are never sampled (and these tests are not built here).",
 ["src/variants/algorithms.hpp","src/variants/looped.hpp","src/variants/semi.cpp","src/variants/index_iterator.hpp"],
 [("block loops with copies into small blocks","src/variants/algorithms.hpp matrix_multiply"),("blocked index iteration","src/variants/looped.hpp iterate_indices"),("register-blocked 4x2 inner kernel","src/variants/semi.cpp matrix_multiply")],
 ["return values of matrix_multiply()","memory accesses"])

prop("C05", "Padded cache-blocked variants compute the exact product for any size",
 "For every matrix size of at least one, every pair of finite matrices and every number of repetitions of at least one, the 'combined', 'kernel_tiled' and 'kernel_test' variants return the product A*B up to rounding, with padding never visible in the result and with the result of several repetitions equal to that of one. 'kernel_tiled' and 'kernel_test' honour the flag saying that B is stored transposed; calling the multiplication again on the same object gives the same result, and A and B are left unmodified.",
 ["inputs","configurations","histories"],
 "all N >= 1 (around every multiple of the 35/64/70/128/256/420/512 block sizes), all finite matrices, repetitions >= 1, repeated calls",
 "The tests cover 'combined' only, with one repetition and a handful of sizes, and are not built here; 'kernel_tiled' and 'kernel_test' have no test at all.",
 ["src/variants/combined.cpp","src/reference_kernels/kernel_tiled.cpp","src/reference_kernels/kernel_test.cpp","src/variants/index_iterator.hpp"],
 [("padding to multiples of the outer block sizes and tiled copies","src/variants/combined.cpp constructor and matrix_multiply; src/reference_kernels/kernel_tiled.cpp"),("result accumulation and reset per repetition","matrix_multiply of all three")],
 ["return values of matrix_multiply()"])

prop("C06", "The naive reference multiplication is the matrix product",
 "For every matrix size (including 0 and sizes that are not powers of two), element type (double, float, integers) and contents, the naive reference multiplication returns the row-major product A*B, and its transposed form returns the same product when B is given transposed. The number of threads does not change the result, the inputs are unmodified, and inputs that are too small raise an out-of-range error or terminate rather than reading outside them. Calls made by several threads at once on their own operands do not influence each other.",
 ["inputs","configurations","schedules"],
 "all N, element types, contents and thread counts",
 "test_naive compares the two forms with each other on a few sizes, so an error common to both, or one depending on size, type or thread count, is invisible; every other test trusts this function as its oracle.",
 ["src/reference_kernels/naive.hpp"],
 [("triple loop with one accumulator per component, rows distributed over threads","src/reference_kernels/naive.hpp")],
 ["return value of naive_matrix_multiply and naive_matrix_multiply_transposed"])

prop("C07", "Block kernels compute exactly the requested block of the product",
 "For every matrix size, every block position and block size inside the matrix and every element type, the plain, transposed and cache-blocked kernels deliver, in the row-major block buffer (zero-initialised by the caller for the cache-blocked kernel), exactly the components of A*B at rows x..x+b and columns y..y+b. The input-block size of the cache-blocked kernel (any value of at least one, for result blocks that are multiples of four) changes neither the values beyond rounding nor which memory is read or written. Kernels running at the same time for different blocks do not influence each other.",
 ["inputs","configurations"],
 "all N, x, y, block sizes with x+b <= N and y+b <= N, all input-block sizes, all element types",
 "No unit test calls the kernels directly; they are reached only through full multiplications with x=y aligned power-of-two blocks that divide N.",
 ["src/reference_kernels/kernel.hpp","src/variants/components/multiplier.cpp"],
 [("three kernels","src/reference_kernels/kernel.hpp"),("kernel selection by storage order and block size","src/variants/components/multiplier.cpp")],
 ["contents of C after kernel::kernel*, multiplier::calculate_submatrix"])

prop("C08", "Tiled layout is a permutation that undoing restores exactly",
 "For every number of dimensions, every array whose extents are multiples of the tile sizes and every element type and allocator, converting to the tiled layout places the element at coordinate c at position (row-major number of its tile) * (tile size) + (row-major position inside the tile), so nothing is lost, duplicated or invented, and the source is unmodified. Undoing the tiling of any tiled array returns exactly the original row-major array, and the flat-index helper gives the row-major number of every coordinate, also for arrays of more than 2^32 elements and while other threads convert other arrays.",
 ["inputs","configurations"],
 "all dimension counts >= 1, all extents and tile sizes with tile dividing extent (non-square arrays and non-cubic tiles included), all contents",
 "The two tests that run use one 256x256 matrix with 4x4 tiles, so any error that cancels for square arrays or tiles, other dimension counts or the inverse conversion (never called) goes unnoticed.",
 ["src/memory_layout/tile_array.hpp","src/memory_layout/util.hpp","src/memory_layout/loop_nest.hpp","src/memory_layout/tiling_info_dim.hpp"],
 [("nested loops over tiles and inner indices with mixed-radix index computation","src/memory_layout/tile_array.hpp make_tiled, undo_tiling"),("row-major flattening","src/memory_layout/util.hpp flat_index")],
 ["return values of make_tiled and undo_tiling"])

prop("C09", "Tile views and tile iteration address exactly the elements of each tile",
 "For every dimension count, extents and tile sizes, iterating over the tiles of a tiled array calls the function once per tile in row-major tile order, each time with a view that reports that tile's index, the number of tiles per dimension and the tile's element count. Reading or writing a view element by flat offset, by index array or by separate indices addresses the same storage, namely the element of the original array at tile index * tile size + inner index, so the views partition the storage and writes through one view never change another. A view stays usable after the tiling description it was made from is gone, and threads may use different views of one array at the same time.",
 ["inputs","configurations","histories"],
 "all shapes, all tiles, all inner coordinates, all interleavings of reads and writes through several views",
 "The tests read each view sequentially on one square 256x256 matrix; they never write, never use non-square shapes or other dimension counts and never check the reported metadata for asymmetric shapes.",
 ["src/memory_layout/tile_view.hpp","src/memory_layout/tile_iterator.hpp"],
 [("base offset of a tile and mixed-radix inner offset","src/memory_layout/tile_view.hpp"),("recursive iteration over tile indices","src/memory_layout/tile_iterator.hpp")],
 ["calls made by iterate_tiles","tile_view accessors","the underlying vector"])

prop("C10", "Loop nests and blocked index iteration visit every index exactly once",
 "For every dimension count, lower and upper bounds (empty ranges included) and steps of at least one with which the index type can count past the upper bound, a loop nest calls the function exactly once for every grid point lower + i*step below upper, in lexicographic order with the last dimension fastest. Blocked index iteration, for any stack of blocking levels in which each block is a multiple of the next finer one, visits exactly the same set of points once each for every extent, whether or not blocks divide it, for every execution order; concurrent work items are formed only over dimensions declared parallel, so points that agree in all of those are handled by the same work item. Lower and upper bounds of different lengths, and blocking levels whose length is not the dimension count they are added to, are refused by an exception or termination before the function is called.",
 ["inputs","configurations","schedules"],
 "all dimension counts, bounds, steps, blocking stacks and parallel-dimension choices, every chunking and order of the parallel loop",
 "Loop nests are only exercised through 256x256 tilings and the blocked iterators only through matrix sizes that are multiples of all blocks.",
 ["src/memory_layout/loop_nest.hpp","src/memory_layout/index_iterator.hpp","src/variants/index_iterator.hpp","src/variants/looped.hpp","learning/MetaProgrammingCPP.cpp"],
 [("template-recursive loops","src/memory_layout/loop_nest.hpp; learning/MetaProgrammingCPP.cpp"),("multi-dimensional index iterator and recursive blocking","src/variants/index_iterator.hpp iterate_indices; src/variants/looped.hpp iterate_indices")],
 ["sequence of calls of the user function"])

prop("C11", "Every hand-optimised experiment variant computes the same product",
 "For every matrix size that meets a variant's documented divisibility (none for naive, transposed and counter; 2 and 4 for the two register-blocked ones; 4, 128 or 256 for the unrolled, exchanged, intrinsics, register, GPU-style and assembler ones), finite contents and any number of threads, each multiplication of the optimisation experiments writes A*B into a zero-initialised result, B being given plain or transposed as that variant requires. It writes nothing outside the result and leaves A and B unmodified, in the optimised build configuration that is shipped (fast-math, AVX2, FMA).",
 ["inputs","configurations","schedules"],
 "all admissible n, all finite matrices, all thread counts, all variants",
 "The experiments have no tests: the benchmark program uses one size (4096), A=2 and B=identity and prints one number, under which dropped terms, swapped columns and transposition errors cancel.",
 ["otherExperiments/multNaive.cpp","otherExperiments/multTransposed.cpp","otherExperiments/multCounter.cpp","otherExperiments/multExchanged.cpp","otherExperiments/multRegister.cpp","otherExperiments/multIntrinLoop.cpp","otherExperiments/multBlocked.cpp","otherExperiments/multGPU.cpp","otherExperiments/multGPUASM.cpp","otherExperiments/multASM.cpp","otherExperiments/mult.hpp"],
 [("manual unrolling, packing of tiles, intrinsics and inline assembler","otherExperiments/mult*.cpp")],
 ["the result array after the call"])

prop("C12", "The command-line program multiplies, reports and refuses as documented",
 "For every combination of options, the program with a documented algorithm name either prints (at verbosity 2) matrices A, B and C of the requested size with C equal to A*B and exits with status 0, reporting the size, total and average time and the number of repetitions, or, when the algorithm does not support the requested storage order of B ('algorithms', 'looped', 'semi' need it transposed, 'combined' needs it untransposed), ends with an error and without any result. An unknown algorithm name is reported as invalid with exit status 1, '--help' lists the options without multiplying, and omitted options take their documented defaults.",
 ["inputs","configurations"],
 "all option combinations: size, algorithm, storage order, block sizes, repetitions, verbosity, check, work-distribution parameters",
 "The application itself has no test; the unit tests call the variants' classes and not the option handling, dispatch, printing or exit status.",
 ["src/matrix_multiply_application/matrix_multiply.cpp","src/util/util.hpp"],
 [("option table, dispatch on the algorithm name, refusal of unsupported storage orders","src/matrix_multiply_application/matrix_multiply.cpp")],
 ["standard output and exit status of the program"])

prop("C13", "Parallel multiplication is free of data races on any number of threads",
 "For every matrix size, blocking and number of threads or nodes, no two concurrent activities of a multiplication (tasks, continuations, parallel loop bodies, OpenMP threads) access the same memory location without synchronisation when one of them writes. This holds for all variants, the naive reference and the optimisation experiments, on first use and with repetitions.",
 ["schedules","inputs","configurations"],
 "all executions with more than one thread: every pair of concurrent accesses not ordered by task creation, continuation, waiting or joins",
 "Unit tests compare results only; a race usually produces the right numbers, and the stable tests run no parallel code at all.",
 ["src/variants/components/recursive.cpp","src/variants/static_improved.cpp","src/variants/algorithms.hpp","src/variants/looped.hpp","src/variants/semi.cpp","src/variants/index_iterator.hpp","src/variants/combined.cpp","src/reference_kernels/kernel_tiled.cpp","src/reference_kernels/kernel_test.cpp","src/reference_kernels/naive.hpp","otherExperiments/multTransposed.cpp"],
 [("tasks write disjoint sub-blocks; loop bodies write disjoint blocks of C","the parallel loops and task trees of all variants")],
 ["memory accesses of concurrent activities"])

prop("C14", "Matrix utilities create, transpose and print exactly what they say",
 "For every size, the identity matrix has ones on the diagonal and zeros elsewhere, the enumerating matrix numbers its components in row-major order, and random matrices lie in [0,1), differ from row to row and from column to column (within the period of the generator, 2^30-1 components) and are the same for every call of the same size. Transposing moves component (i,j) to (j,i) for square and rectangular matrices, so that transposing back restores the original, and each printing function writes every component once, comma-separated, one row per line, in plain or transposed order, to the requested output.",
 ["inputs","configurations"],
 "all sizes (rectangular shapes where accepted), element types and contents",
 "Tests use these helpers only to build operands; nothing checks rectangular shapes, involution or printed output.",
 ["src/util/create_identity_matrix.hpp","src/util/create_random_matrix.hpp","src/util/pattern_matrices.hpp","src/util/transpose_matrix.hpp","src/util/util.hpp"],
 [("index arithmetic of the helpers","src/util/*.hpp")],
 ["returned vectors","characters written"])

prop("C15", "Aligned allocation returns disjoint, aligned, fully usable storage",
 "For every element type, positive element count and power-of-two alignment, the aligned allocator returns a pointer that is a multiple of the alignment and under which all requested elements can be written and read back without touching memory outside its own allocation. Storage handed out by different live allocators never overlaps, and it is released exactly once when its allocator is destroyed.",
 ["inputs","histories"],
 "all types, counts >= 1, alignments 1..4096, all interleavings of creating, filling and destroying allocators",
 "No test uses the allocator.",
 ["src/aligned_allocator.hpp"],
 [("over-allocation by one alignment unit and std::align","src/aligned_allocator.hpp")],
 ["returned pointers, allocation and release of the backing storage"])

prop("C16", "Errors carry their message and mismatched tilings are rejected",
 "For every message text, the library's exceptions are standard exceptions whose description, for as long as the exception or a copy of it lives, is the type's prefix followed by exactly that text. Converting to or from a tiled layout with a tiling description whose number of dimensions differs from the array's is always rejected with such an exception, and never for a matching one.",
 ["inputs","histories"],
 "all message strings (empty, long, with special characters), copies and rethrows, all tiling-description lengths",
 "No test provokes an error.",
 ["src/memory_layout/memory_layout_exception.hpp","src/util/matrix_multiplication_exception.hpp","src/memory_layout/tile_array.hpp"],
 [("message storage","the two exception classes"),("dimension check","src/memory_layout/tile_array.hpp")],
 ["what() of a caught exception","whether make_tiled / undo_tiling throw"])

prop("C17", "The program's self-check verdict is truthful",
 "For every run with checking requested, the program reports the check as passed if and only if every component of the matrix it computed differs from the true product by less than the documented tolerance of 1e-10. In particular a computation corrupted at any single component, in any algorithm, is reported as a failed check and never as passed, and a correct computation is never reported as failed.",
 ["fault_sequences","inputs","configurations"],
 "all sizes, algorithms and storage orders, corruption of any one produced value (by any amount well above the tolerance, including NaN) or loss of any one unit of work",
 "The check is the only oracle a user has, and no test ever gives it a wrong matrix.",
 ["src/matrix_multiply_application/matrix_multiply.cpp","src/reference_kernels/naive.hpp"],
 [("component-wise comparison with the naive product","src/matrix_multiply_application/matrix_multiply.cpp main")],
 ["'check passed' / 'check failed' on standard output"])

prop("C18", "The experiment benchmark runs the named variant and reports truthfully",
 "For every documented variant name the benchmark program runs that variant once and no other, on a matrix A filled with 2, the identity as B and a zeroed result, all 64-byte aligned, disjoint and of a size every variant admits. The check value it prints is the Frobenius norm of the whole matrix the variant wrote, whatever that is, and the reported operation count is 2n^3. Any other name, or none, is reported as such, runs nothing and reports no result.",
 ["inputs","configurations"],
 "all variant names, all other strings, all results a variant may leave",
 "The benchmark program has no test; its only output is one number, so a skipped row of the check, a wrong dispatch or badly prepared operands are invisible.",
 ["otherExperiments/benchmark.cpp","otherExperiments/mult.hpp"],
 [("operand preparation and alignment","otherExperiments/benchmark.cpp align, main"),("dispatch on the variant name","otherExperiments/benchmark.cpp main"),("check value","otherExperiments/benchmark.cpp main")],
 ["calls and operands of the mult functions","standard output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except ImportError: pass
for p in P: assert len(p["title"]) <= 80, p["id"]
