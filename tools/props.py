#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
I = "include/libflatarray/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [I + f for f in files],
                          "mechanism": [{"name": n, "where": I + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("P01", "A grid is a dense array of structs: every cell stores what was last set",
  "After any sequence of single-cell writes, row writes and broadcasts at valid coordinates, reading any cell (singly or as part of a row) returns exactly the value last written to that coordinate, member by member, including array and private members. No write changes any cell other than the addressed ones.",
  ["histories", "inputs", "configurations"],
  "every grid shape, every coordinate and run length that fits in a row, every history of writes/broadcasts, 1D/2D/3D and every registered size list",
  "the tests write a handful of coordinates of a few shapes; an address computation that aliases two cells, or a frame violation in one corner or at one row length, needs all coordinates, shapes and write orders",
  ["soa_grid.hpp", "detail/set_instance_functor.hpp", "detail/get_instance_functor.hpp", "detail/macros.hpp", "macros.hpp", "detail/soa_array_member_copy_helper.hpp"],
  [("soa_grid::set/get/broadcast", "soa_grid.hpp"), ("set_instance_functor", "detail/set_instance_functor.hpp"), ("get_instance_functor", "detail/get_instance_functor.hpp"), ("array member copy", "detail/soa_array_member_copy_helper.hpp")],
  ["public get() of every cell after every step"])

p("P02", "Struct-of-arrays layout: members are contiguous, disjoint and in order",
  "For every registered type, the storage of a container holds one contiguous array per member (one per element of an array member) in registration order, without gaps or overlap, and cell (x,y,z) sits at the row-major position given by the padded extents. The published layout facts (number of members, aggregated member size, byte size, offset of a member, raw member address) all describe that same layout. If a grid's storage is exchanged through its interface, all access goes to the new storage in the same layout.",
  ["programs", "inputs", "configurations"],
  "every registered type shape (member types, counts, array arities), every extent triple, every cell and member",
  "tests check a couple of offsets of one or two types; a layout that overlaps only for certain member orders, arities or non-cubic extents escapes them",
  ["macros.hpp", "detail/macros.hpp", "detail/offset.hpp", "aggregated_member_size.hpp", "number_of_members.hpp", "member_ptr_to_offset.hpp", "detail/set_byte_size_functor.hpp", "soa_array.hpp"],
  [("offset chain", "detail/macros.hpp"), ("member accessors", "macros.hpp"), ("member_ptr_to_offset", "member_ptr_to_offset.hpp"), ("byte size", "detail/set_byte_size_functor.hpp")],
  ["addresses of member references relative to the raw data pointer"])

p("P03", "All accessor flavours and neighbour lookups designate the same cells",
  "Every way of naming a cell inside a callback - mutable, const and lightweight accessors, compile-time neighbour coordinates (also chained), index arithmetic, typed and untyped raw member access - designates the member storage of exactly the cell at the corresponding coordinate. Reading through one and writing through another therefore always agree, and whole-cell transfers in and out copy every registered member and nothing else. Operations on the same or other containers within a callback (also nested callbacks) do not move its accessors.",
  ["programs", "inputs", "configurations"],
  "every accessor kind, every base cell, every relative coordinate in range, every member (scalar, array, private)",
  "neighbour offsets are compile-time arithmetic over four hand-duplicated accessor classes; tests exercise a few offsets on one or two of them",
  ["macros.hpp", "detail/macros.hpp", "soa_accessor.hpp", "coord.hpp", "detail/soa_array_member_copy_helper.hpp"],
  [("coord operator[]", "macros.hpp"), ("LIBFLATARRAY_INDEX", "detail/macros.hpp"), ("gen_index", "macros.hpp")],
  ["addresses and values of member references obtained through each accessor"])

p("P04", "Bulk save/load is a faithful, in-place-exact serialization",
  "Saving any set of row runs writes exactly the addressed cells' members to the buffer in struct-of-arrays order with the given total count, and loading such a buffer into any equally shaped set of runs reproduces those cells exactly. Bytes of the buffer outside the runs' slots and cells outside the runs stay untouched.",
  ["inputs", "histories", "configurations"],
  "every list of runs (any number, order, lengths, origins), every buffer offset/stride, every type shape, on grids and on single accessors",
  "tests round-trip one or two fixed run lists; offset/stride mistakes show only for several runs, particular members (array members) or partial buffers",
  ["soa_grid.hpp", "detail/load_functor.hpp", "detail/save_functor.hpp", "detail/simple_streak.hpp", "detail/macros.hpp", "detail/soa_array_member_copy_helper.hpp"],
  [("load_functor", "detail/load_functor.hpp"), ("save_functor", "detail/save_functor.hpp"), ("accessor load/save", "macros.hpp")],
  ["buffer bytes and all cells after each call"])

p("P05", "Extent selection picks the smallest registered size that fits",
  "For every requested shape the callback runs exactly once, with the smallest registered extents that hold the shape (per axis for non-uniform lists, by largest axis for uniform lists), and identically for read-only and writable grids. A shape that fits no registered size, or has too many dimensions for the list, is rejected with an out-of-range error and the functor is not run.",
  ["inputs", "configurations"],
  "every shape up to beyond the largest registered size, for each kind of size list, built-in defaults included",
  "boundaries exist at every registered size of every list on every axis; tests probe a few",
  ["api_traits.hpp", "macros.hpp", "detail/macros.hpp", "soa_grid.hpp"],
  [("select_sizes", "api_traits.hpp"), ("LIBFLATARRAY_CUSTOM_SIZES*", "macros.hpp"), ("LIBFLATARRAY_CASE_DIM_*", "detail/macros.hpp")],
  ["compile-time extents seen by the functor, number of invocations, exception type"])

p("P06", "Grids have value semantics: copies are deep, swap and resize are exact",
  "Copy construction and assignment yield an independent grid of equal shape, extents, byte size and cell values; swapping exchanges the complete state of two grids of any shapes; resizing yields the requested shape with default-initialised cells (or leaves the grid alone if the shape is unchanged). This holds along every history of such operations, including default-constructed (empty) grids, self-assignment and differently shaped operands.",
  ["histories", "configurations"],
  "every sequence of construct/copy/assign/swap/resize/set operations over several grids of different shapes, empty ones included",
  "tests copy and swap same-shaped grids once; mistakes show for shapes differing in y/z, for empty operands, or after a second operation on a copied/swapped grid",
  ["soa_grid.hpp", "detail/copy_functor.hpp", "detail/construct_functor.hpp", "detail/set_byte_size_functor.hpp"],
  [("copy constructor / operator= / swap / resize", "soa_grid.hpp"), ("copy_functor", "detail/copy_functor.hpp")],
  ["dims, extents, byte_size and all cells of all grids after each step"])

p("P07", "Member objects are constructed once, used alive, destroyed once",
  "In every history of container operations each member object stored in a container is constructed exactly once before any use, never touched when not alive, and destroyed exactly once no later than its container; all storage is released. This holds for non-trivial member types, for the grid, the fixed-capacity array and the growable vector.",
  ["histories", "inputs"],
  "every sequence of container operations (construct, copy, assign, swap, resize, push/pop, grow, clear, load, destroy) with resource-owning members",
  "lifetime bugs are silent with plain-old-data members, which nearly all tests use, and depend on the history (grow, shrink, copy, self-operations)",
  ["soa_grid.hpp", "soa_array.hpp", "soa_vector.hpp", "detail/construct_functor.hpp", "detail/destroy_functor.hpp", "detail/generic_destruct.hpp", "detail/macros.hpp"],
  [("construct_functor", "detail/construct_functor.hpp"), ("destroy_functor", "detail/destroy_functor.hpp"), ("construct_members/destroy_members", "macros.hpp"), ("soa_array copy/swap", "soa_array.hpp"), ("soa_vector growth", "soa_vector.hpp")],
  ["registry of live member objects keyed by address; allocation ledger"])

p("P08", "Rejected or failing operations leave containers usable and consistent",
  "When an operation is refused (shape not supported, capacity exceeded, operand too large, mismatched grids, pop from empty fixed-capacity array) or an allocation of the container's memory fails at any point, the caller gets the exception, nothing leaks or is released twice, and every involved container can still be read, reused and destroyed. A refusal leaves the contents of the container unchanged; after an allocation failure the target of a resize or assignment may instead be empty. An exception thrown by a functor reaches the caller of the callback as it is, and the containers hold what they did plus what the functor wrote.",
  ["fault_sequences", "histories"],
  "every position of an allocation failure and every refused request inside every history of operations, followed by continued use and destruction",
  "tests check that an exception is thrown, not what state remains, and never inject allocation failures",
  ["soa_grid.hpp", "soa_array.hpp", "soa_vector.hpp", "aligned_allocator.hpp", "api_traits.hpp"],
  [("soa_grid::resize", "soa_grid.hpp"), ("capacity checks", "soa_array.hpp"), ("growth", "soa_vector.hpp")],
  ["contents, live-object registry and allocation ledger after each failure and after destruction"])

p("P09", "The fixed-capacity array is an exact bounded sequence",
  "Along every history of append, remove, clear, element writes, iteration, cross-capacity copy, assignment, swap and range load, the fixed-capacity array holds exactly the elements, in order, that a bounded sequence would hold, with matching size, byte size, capacity and iterators. Any operation that would exceed the capacity (or shrink an empty array) is rejected with an out-of-range error.",
  ["histories", "inputs", "configurations"],
  "every operation sequence, capacities and sizes around the limit, operands of smaller, equal and larger capacity",
  "tests use one short scripted sequence per operation; off-by-one at capacity and stale size after partial operations need all histories",
  ["soa_array.hpp", "macros.hpp", "detail/macros.hpp"],
  [("soa_array", "soa_array.hpp"), ("copy_in / load", "soa_array.hpp")],
  ["size, capacity, byte_size, iteration and every element after each step"])

p("P10", "The growable vector is an exact growable sequence",
  "Along every history of construction, element writes, push, emplace, pop, clear, resize, reserve, copy and assignment, the vector holds exactly the elements a standard vector would hold (values of elements added by resize but not yet written are unspecified). Its capacity is never below its size, growth or reservation never loses or changes elements, and callbacks see the same elements in the same order.",
  ["histories", "inputs", "configurations"],
  "every operation sequence and every size relation to the registered extents (below, at, just above), including reservations smaller than the size",
  "tests push a thousand elements once; growth, over-reservation and shrink interplay depends on the exact size/extents/capacity history",
  ["soa_vector.hpp", "soa_grid.hpp"],
  [("push_back/reserve/resize", "soa_vector.hpp")],
  ["size, empty, capacity, get() of every element, callback view after each step"])

p("P11", "Two-grid callbacks pair the right grids and reject mismatches",
  "A callback over two grids runs exactly once with the first accessor bound to the receiving grid and the second bound to the argument grid, each with that grid's own extents, starting at the first cell, for every functor, const or not. Unless the type opts in to asymmetric callbacks, grids of different shape are rejected with an invalid-argument error without running the functor.",
  ["inputs", "configurations", "programs"],
  "every pair of shapes, symmetric and asymmetric types, const and non-const receivers",
  "only a few same-shape pairs and a single asymmetric pair are tested; binding or shape-comparison errors show for shapes that differ in one axis only",
  ["soa_grid.hpp", "detail/dual_callback_helper.hpp", "api_traits.hpp"],
  [("dual_callback", "soa_grid.hpp"), ("dual_callback_helper*", "detail/dual_callback_helper.hpp"), ("assert_same_grid_sizes", "soa_grid.hpp")],
  ["extents, data pointers, cells reached through both accessors, exception type"])

p("P12", "Aligned allocation is aligned, in bounds and exactly released",
  "For every element type, alignment, element count and every address the underlying heap may return, an allocation is aligned as requested, provides the full requested space inside the obtained block without overlapping its own bookkeeping, and releasing it returns exactly the obtained block with its size. Interleaved allocations and releases never interfere, and standard containers which use the allocator (also converted to other element types) keep their elements in it.",
  ["inputs", "histories", "configurations"],
  "every alignment power of two, every residue of the raw address, every count, every interleaving of allocate/release",
  "the raw address residue is chosen by malloc, so tests only see the residues malloc happens to produce (multiples of 16)",
  ["aligned_allocator.hpp"],
  [("allocate/deallocate", "aligned_allocator.hpp")],
  ["raw operator new/delete calls, returned addresses, bytes of the block"])

p("P13", "Loop peeling covers an index range exactly once with aligned vector steps",
  "For every start and end (negative ones included if the counter is signed) further than one vector width from the counter type's limits, and every vector width, the peeled loop presents exactly the indices from start to end, in order and each once, never one beyond the end, also when the range is empty or shorter than the vector. Full-width steps only start at multiples of the vector width, everything else is presented one by one, and the counter ends at the end of the range.",
  ["inputs", "configurations"],
  "every (start, end) pair, every vector width, counter type, macro and function form, short and streaming vectors",
  "tests run one long range per form; short ranges, aligned starts and ends on or next to a multiple are where the splits collapse",
  ["loop_peeler.hpp", "detail/sibling_short_vec_switch.hpp"],
  [("LIBFLATARRAY_LOOP_PEELER", "loop_peeler.hpp"), ("loop_peeler()", "loop_peeler.hpp")],
  ["sequence of (index, width) pairs presented to the body"])

p("P14", "Short vectors compute lane by lane exactly like scalars on every ISA",
  "For every element type, width and instruction set, addition, subtraction, multiplication, integer division (operands below 2^24), comparisons, mask queries (any, count, per-lane), blending, broadcast/list/pointer construction, element access and printing give in each lane exactly the scalar result for that lane's operands, in plain, compound and scalar-operand form. No lane influences another.",
  ["inputs", "configurations"],
  "every lane, every pair of operand values including signed zeros, infinities, NaN, denormals and extremes, every mask pattern, every ISA variant the machine can run",
  "tests use one ascending data pattern per operation and are never run on the AVX-512, AVX-only, SSE2-only or scalar builds; a swapped lane half or wrong predicate shows only for specific lanes or values",
  ["short_vec.hpp", "streaming_short_vec.hpp", "detail/short_vec_avx512_double_8.hpp", "detail/short_vec_avx_float_8.hpp", "detail/short_vec_sse_float_4.hpp", "detail/short_vec_scalar_float_8.hpp", "detail/short_vec_avx_int_8.hpp"],
  [("short_vec<CARGO, ARITY> per ISA", "short_vec.hpp"), ("streaming_short_vec", "streaming_short_vec.hpp")],
  ["every lane of every result, mask queries, printed text"])

p("P15", "Short vector loads, stores, gathers and scatters move exactly the right lanes",
  "For every element type, width and instruction set, loads and stores (unaligned, aligned, non-temporal, streaming) transfer lane i to or from element i at every permitted address, and gathers and scatters transfer lane i to or from the element selected by the i-th offset for every offset vector. Values pass bit-exactly and no memory outside the addressed elements is read or written.",
  ["inputs", "configurations"],
  "every lane, every address misalignment allowed, every offset pattern (permutations, duplicates for gather, negative, descending), every ISA variant",
  "tests gather with one ascending stride-10 pattern and load from one position; lane swaps symmetric in that pattern or over-wide accesses stay invisible",
  ["short_vec.hpp", "streaming_short_vec.hpp", "alignment.hpp", "detail/short_vec_helpers.hpp", "detail/short_vec_avx512_double_16.hpp", "detail/short_vec_avx_double_4.hpp", "detail/short_vec_sse_float_8.hpp"],
  [("load/store/gather/scatter per ISA", "short_vec.hpp"), ("streaming store", "streaming_short_vec.hpp"), ("alignment", "alignment.hpp")],
  ["guarded memory before/after, every lane"])

p("P16", "Vector division and square root stay within their accuracy bound everywhere",
  "In every lane, on every instruction set and width, double-precision division and square root equal the correctly rounded scalar result, and single-precision division, square root and division by a square root have a relative error of at most 2^-10 for all normal operands with normal results and divisors below 2^126. Integer square roots of perfect squares below 2^24, and divisions by them with whole results below 1000, are exact. The division by a square root expression, its compound form, and evaluating the square root first agree within that bound in both precisions.",
  ["inputs", "configurations"],
  "every single-precision operand (all mantissas, all normal exponents), every lane, every ISA variant, all operator forms",
  "tests compare about 32 operands against a 0.3 percent tolerance; estimate instructions and refinement steps fail for particular mantissas, exponents or lanes",
  ["short_vec.hpp", "detail/sqrt_reference.hpp", "detail/short_vec_avx512_float_16.hpp", "detail/short_vec_avx_float_8.hpp", "detail/short_vec_sse_float_4.hpp", "detail/short_vec_sse_double_2.hpp"],
  [("operator/ , sqrt(), sqrt_reference", "detail/sqrt_reference.hpp")],
  ["every lane of every quotient / root"])

p("P17", "Concurrent readers and disjoint writers do not disturb each other",
  "When several threads at the same time read one grid or vector through its const interface (single cells, rows, bulk saves, callbacks, two-grid callbacks as source), every thread gets exactly the stored values in every interleaving, with no data race. The same holds for threads that update disjoint cells through accessors handed out by separate callbacks on one grid, or on separate containers.",
  ["schedules"],
  "all interleavings of the threads' memory accesses within the preemption bound, for every pair (and selected triples) of operations",
  "no test uses threads; hidden shared mutable state inside logically const operations corrupts results only under specific interleavings",
  ["soa_grid.hpp", "detail/staging_buffer.hpp", "soa_vector.hpp", "detail/dual_callback_helper.hpp"],
  [("const get/save", "soa_grid.hpp"), ("staging_buffer", "detail/staging_buffer.hpp")],
  ["results of each thread; every instrumented memory access"])

p("P18", "Compile-time vector selection and alignment facts are consistent",
  "For every element type, unroll factor and instruction set the estimated vector type has the element type, the width unroll-factor x native register width / element size (a supported width), and uses non-temporal stores exactly when the size of the grid reaches the cache estimate. The alignment published for a vector type is sufficient for its aligned and non-temporal accesses, and the sibling of a vector type keeps kind and element type.",
  ["configurations", "programs"],
  "every element type, unroll factor, grid extent around the cache threshold and ISA variant",
  "selection happens at compile time per build configuration; tests evaluate it for one or two combinations in two builds",
  ["estimate_optimum_short_vec_type.hpp", "ilp_to_arity.hpp", "alignment.hpp", "short_vec.hpp", "detail/sibling_short_vec_switch.hpp", "detail/streaming_short_vec_switch.hpp"],
  [("estimate_optimum_short_vec_type", "estimate_optimum_short_vec_type.hpp"), ("ilp_to_arity", "ilp_to_arity.hpp"), ("alignment", "alignment.hpp")],
  ["selected types and constants"])

p("P19", "List macros enumerate every element of lists of any supported length",
  "For every list length up to the supported maximum and every position, the list macros report the right length, return the right element, remove exactly the first element, apply the given macro once per element in order with index 0,1,2,..., and choose the right branch when comparing the length with a bound. Types registered with any supported number of members therefore expose all their members.",
  ["inputs", "programs"],
  "every list length 1..max, every index, every comparison bound, and registration of types with many members",
  "each length and index is a separate hand-written macro line; tests expand a few short lists",
  ["preprocessor.hpp", "detail/preprocessor.hpp", "macros.hpp"],
  [("LIBFLATARRAY_ELEM/SIZE/FOR_EACH/IF_SHORTER", "detail/preprocessor.hpp")],
  ["macro expansions"])

p("P20", "Containers on a CUDA device behave like containers on the host",
  "For grids and arrays whose storage lives on a CUDA device, every history of construction, single-cell and row writes, broadcasts, reads, bulk save and load, resize, swap and destruction through the host interface yields exactly the values the same history yields on host containers, for every size relative to the thread blocks, and changes nothing else. Device memory is touched only by kernels and explicit transfers, within live allocations; kernel results don't depend on the order of threads; members are constructed and destroyed once per cell; a failing device allocation is reported to the caller and leaves the container usable; all device memory is released exactly once and no CUDA error is left behind.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "every history of host operations, every order of the threads of each launch, every size around the thread block limits, every failing allocation",
  "the CUDA code is neither compiled nor run by the tests on machines without nvcc; launch bounds, per-thread index arithmetic and staging transfers are wrong only for particular sizes and histories",
  ["soa_grid.hpp", "cuda_array.hpp", "cuda_allocator.hpp", "detail/staging_buffer.hpp", "detail/generate_cuda_launch_config.hpp", "detail/init_kernel.hpp", "detail/set_instance_functor.hpp", "detail/get_instance_functor.hpp", "detail/load_functor.hpp", "detail/save_functor.hpp", "detail/construct_functor.hpp", "detail/destroy_functor.hpp", "soa_array.hpp"],
  [("kernels and their launches", "detail/set_instance_functor.hpp"), ("staging_buffer", "detail/staging_buffer.hpp"), ("cuda_array", "cuda_array.hpp"), ("launch configuration", "detail/generate_cuda_launch_config.hpp")],
  ["values read back, every memory access of host and kernel code, device allocations, CUDA error state"])

p("P21", "The testbed runs the selected benchmarks once and reports what they are",
  "Evaluating a benchmark runs it exactly once, with the given dimensions, if its family contains the evaluation's name, and otherwise not at all. If output is wanted a run prints exactly one line with the header's ten columns: revision, date (UTC), host, device, order, family, species, dimensions, performance, unit. The device is the GPU's name, or the CPU's as reported by likwid-topology (type and name, if both are given) or else by the first model name or cpu entry with a value in /proc/cpuinfo, or else 'unknown CPU'. Whatever these sources contain, the query neither fails nor reads outside of their text, and leaves no file, pipe or process behind.",
  ["inputs", "configurations", "histories"],
  "every content of /proc/cpuinfo and of likwid-topology's output, every evaluation name, family, dimension vector and result, every sequence of evaluations",
  "no test includes the testbed; the parsers meet whatever the machine happens to print, so missing fields, empty lines, other architectures' entries and repeated queries are never exercised",
  ["testbed/evaluate.hpp", "testbed/cpu_benchmark.hpp", "testbed/gpu_benchmark.hpp", "testbed/benchmark.hpp"],
  [("evaluate::operator()", "testbed/evaluate.hpp"), ("parse_proc_cpu/parse_likwid_topology/tokenize/trim", "testbed/cpu_benchmark.hpp"), ("gpu_benchmark::device", "testbed/gpu_benchmark.hpp")],
  ["device(), runs of performance(), lines on std::cout, open files and pipes"])

for x in P:
    print(json.dumps(x, ensure_ascii=False))
