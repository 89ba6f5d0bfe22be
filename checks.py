"""Table of checks: which harness builds decide which property, and within what bounds."""

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import gen_cuda, gen_layout, gen_lists

ISA = {
    # name: (-march flags, cpu flags needed)
    "sse4": (["-march=x86-64-v2"], []),
    "avx2": (["-march=x86-64-v3"], ["avx2", "fma"]),
    "avx512": (["-march=x86-64-v4"], ["avx512f", "avx512dq", "avx512bw", "avx512vl"]),
    "avx": (["-march=x86-64-v2", "-mavx"], ["avx"]),
    "sse2": (["-march=x86-64"], []),
    "scalar": (["-march=x86-64", "-U__SSE__", "-U__SSE2__"], []),
}
ASAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
FAST = ["-O1"]


class Build:
    def __init__(self, src, isa="sse4", flags=None, defs=(), name=None, shards=8, shards_thorough=None, args=(), needs=None,
                 thorough_only=False, inc=(), libs=(), prepare=None, cxx="g++", extra_src=(), distinct_states=False, runtime=(), foreign=False):
        self.src = src
        self.isa = isa
        self.name = name or "%s_%s" % (src.replace(".cpp", ""), isa)
        self.flags = list(flags if flags is not None else ASAN) + ISA[isa][0] + ["-D" + d for d in defs]
        self.shards = shards
        self.shards_thorough = shards_thorough or shards
        self.args = list(args)
        self.needs = list(needs if needs is not None else ISA[isa][1])
        self.thorough_only = thorough_only
        self.inc = list(inc)
        self.libs = list(libs)
        self.prepare = prepare
        self.cxx = cxx
        self.extra_src = list(extra_src)
        self.distinct_states = distinct_states
        self.runtime = list(runtime)
        self.foreign = foreign

    def sources(self, verif):
        return [verif + "/harness/" + self.src] + self.extra_src


def HUGE(src):
    # containers with extents beyond 2^32 cells: address space is reserved, no AddressSanitizer
    return Build(src, flags=FAST, defs=["HUGE_EXTENTS"], name=src.replace(".cpp", "") + "_huge")


CHECKS = {}


def check(pid, level, technique, note, builds, bounds, assumptions=(), rule="", nontrivial=None):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, builds=builds, bounds=bounds,
                       assumptions=list(assumptions), rule=rule, nontrivial=nontrivial)


A_COMPILER = "harnesses are compiled with g++ 13 (-std=c++14) against the headers in /repo/include; the compiler, libstdc++ and AddressSanitizer are trusted"
A_COPY = "data independence: cell values are opaque to the containers, so one distinguishable value per write stands for all values (backed by all pairs of 253 cell values with unusual bit patterns: negative zero, NaNs with payload, denormals, all ones...)"

check("P01", "model_checking",
      "stateless model checking of the real grid: all write histories to a depth vs. a coordinate map",
      "Exhaustive within the bounds on the real code (every coordinate, run length, shape and history up to the depth), with AddressSanitizer; larger shapes/histories are not covered.",
      [Build("p01.cpp"), Build("p01_large.cpp"), HUGE("p01_large.cpp")],
      {"quick": "shapes: all up to 7x4x4 (per-axis list), 8x1x1, 6x6x1, 5x5x5 (uniform lists), 7 shapes of the built-in list; depth 1 everywhere, deeper wherever sequences <= 1e4 (depth 2) / 1.5e5 (depth 3-4); the addressed cell is read right before and after, all cells forwards and backwards in turn; large rows (4130x1x1, 200x3x1, 70x65x1, 33x33x33, 65x3x3): run set, broadcast and run read at every position and length next to a power of two or built-in extent; rows of 65600 and 131080 cells around 2^15..2^17; extents beyond 2^32 cells (65568x65568x4, 2064^3; corner rows); cells with 16 array members of arities 1..65",
       "thorough": "same shapes; depth 2 up to 4e5 sequences, depth 3-4 up to 1.2e7 sequences; rows up to 300 cells: every position and length"},
      [A_COMPILER, A_COPY])

check("P06", "model_checking",
      "stateless model checking of the real grids: all construct/copy/assign/swap/resize/write histories over 2-3 grids vs. a shape+token model",
      "Exhaustive within the bounds on the real code with AddressSanitizer and an allocation ledger; shapes and histories beyond the bounds are not covered.",
      [Build("p06.cpp"), HUGE("p06.cpp")],
      {"quick": "2 grids x 7 shapes (empty included; per-axis, 1D-uniform, asymmetric and built-in lists): all histories to depth 3, to depth 5 modulo equal (observable state, last operation); 3 grids: depth 2 / 4; every pair of shapes up to the largest of 4 lists (per-axis, asymmetric, uniform 2D/3D) x copy/assign/swap/resize; zero dimensions included; also with array members of arities 1..65; every pair of 12 large shapes of the built-in list (up to 4200x1x1, 70x65x1, 32x32x32); resizing between all lengths next to powers of two or built-in extents up to 4200 (300 for y, z); extents beyond 2^32 cells: depth 2 (3 modulo equal state)",
       "thorough": "2 grids: depth 4, depth 8 modulo equal state; 3 grids: depth 3 / 6"},
      [A_COMPILER, A_COPY])

check("P07", "model_checking",
      "stateless model checking of the real containers with instrumented members: all operation histories, lifetime automaton per member object",
      "Exhaustive within the bounds on the real code; every member object's construct/use/relocate/destroy events are checked against its lifetime automaton, storage against an allocation ledger.",
      [Build("p07.cpp")],
      {"quick": "grids: depth 3 (5 modulo equal state); vectors: depth 3 (6); arrays of capacities 2,3,3,5: depth 2 (3); every pair of shapes of 2 lists x copy/assign/swap/resize; every (size, argument) of every vector and array operation",
       "thorough": "grids: depth 4 (7); vectors: depth 4-5 (9); arrays: depth 3 (5)"},
      [A_COMPILER, "lifetime events of member types are observed through their constructors, assignment and destructor; members that allocate and fail in their own constructor are out of scope"])

check("P08", "fault_enumeration",
      "fault enumeration inside stateless model checking: every allocation failure position and every refused request in every history, then continued use",
      "Exhaustive within the bounds on the real code: the k-th library allocation of each operation fails (k = 0..2, no operation makes more), every unsupported request is made in every state.",
      [Build("p08.cpp"), Build("p03_nested.cpp", name="p08_throwing", defs=["THROWING"])],
      {"quick": "grids: depth 2 (3 modulo equal state), vectors: depth 2 (4), arrays: depth 2 (3); each operation fault-free and with allocation 0,1,2 failing; requests of all sizes next to 2^7..2^63 and SIZE_MAX for every container, size and operation; functors throwing 7 kinds of exceptions after 0..6 writes in 16 ways of (nested) callbacks, then each of 21 operations",
       "thorough": "grids: depth 3 (5), vectors: depth 3-4 (7), arrays: depth 3 (5)"},
      [A_COMPILER, "allocation failure means operator new throwing bad_alloc"],
      rule="a distinct observable joint state of all containers (shapes, sizes, capacities and which cells hold equal values) reached during the enumeration", nontrivial="states")

check("P09", "model_checking",
      "stateless model checking of the real arrays: all operation histories over four arrays vs. bounded sequences",
      "Exhaustive within the bounds on the real code with AddressSanitizer.",
      [Build("p09.cpp")],
      {"quick": "capacities 2,3,3,5; about 150 operations; all histories to depth 3, to depth 4 modulo equal (state, last operation); every (size, size, argument) combination of every operation; capacities 300, 517, 1030, 2100 and 66000 with sizes next to powers of two; array members of arities 1..65; requests of all sizes next to 2^7..2^63 and SIZE_MAX (sums overflow)",
       "thorough": "depth 4 / 6"},
      [A_COMPILER, A_COPY])

check("P10", "model_checking",
      "stateless model checking of the real vectors: all operation histories vs. standard sequences",
      "Exhaustive within the bounds on the real code with AddressSanitizer.",
      [Build("p10.cpp")],
      {"quick": "size lists (2)(3)(5)(9), 3D lists and built-in list; one vector: depth 3 (5 modulo equal state), two vectors: depth 2 (3); every (size, argument) of every operation; growth, reserve and resize between all sizes next to powers of two or built-in extents up to 1100 and around 2^15, 2^16; array members of arities 1..65; requests of all sizes next to 2^7..2^63 and SIZE_MAX",
       "thorough": "one vector: depth 4 (9), two vectors: depth 3 (5); large sizes up to 4200"},
      [A_COMPILER, A_COPY])

check("P05", "exploration",
      "exhaustive exploration of the real selector: every shape over the boundary set of every kind of size list vs. a minimal-fit oracle",
      "Every combination of boundary values (size-1, size, size+1, 0, beyond the largest, beyond 2^32) of all axes is executed on the real selection code; custom lists additionally with every value in between and through real grids and vectors.",
      [Build("p05.cpp", shards=7)],
      {"quick": "5 custom lists (per-axis, single-size, uniform 1D/2D/3D), 6 built-in lists incl. 'none given'; all boundary combinations; also with omitted dimensions",
       "thorough": "same, with every small shape of the default list also through real grids"},
      [A_COMPILER],
      rule="a shape that is accepted (callback ran once with the smallest fitting extents); the remaining evaluations are rejected shapes")

check("P11", "exploration",
      "exhaustive exploration of the real two-grid callbacks: every pair of shapes x receiver constness x functor kind x (a)symmetric types",
      "Every pair of shapes within the bounds is executed on the real grids, checking binding, extents, contents and rejection; larger shapes are not covered.",
      [Build("p11.cpp"), HUGE("p11.cpp")],
      {"quick": "all pairs of shapes up to 4x3x3 (per-axis list, symmetric and asymmetric), 3x3x3 (uniform), 4x4 (2D uniform, asymmetric); 3 call modes, plus each grid with itself; 21 shapes of the built-in list, 11 large asymmetric ones, extents beyond 2^32 cells",
       "thorough": "uniform up to 4x4x4"},
      [A_COMPILER, A_COPY],
      rule="a pair for which the callback has to run (its effect on both grids was compared cell by cell); the remaining evaluations are rejected pairs")

check("P12", "model_checking",
      "stateless model checking of the real allocator over a nondeterministic heap: every address residue, alignment, element size and count; all interleaved allocate/release histories",
      "The heap below the allocator is replaced by one that returns every possible residue modulo the alignment; guard zones and released address/size are checked on every execution.",
      [Build("p12.cpp")],
      {"quick": "alignments 1..4096 (powers of two) x 5 element sizes x 8 counts x every residue; 3 live allocations, all histories to depth 5 at 8 residues; unrepresentable sizes; sizes around 2^20..2^36 at every alignment; alignments 2^13..2^20 at the residues next to all powers of two; std::vector and std::deque on top of it: all histories of 7 operations on two containers to depth 4 (std::list: 2)",
       "thorough": "alignments to 8192, histories to depth 7 (std::vector, std::deque: 6)"},
      [A_COMPILER, "the heap may return any address; alignments are powers of two"])

check("P13", "exploration",
      "exhaustive exploration of the real loop peeler: every (start, end) pair x vector type x counter type x macro/function form",
      "Every start/end pair in the windows is executed on the real macro and function; the presented steps are compared with the definition of the range.",
      [Build("p13.cpp", flags=["-O1"], shards=8)],
      {"quick": "23 vector types; all start,end in 0..100, -50..50 and in windows of 40 at 10^6, just below 2^31, at 2^33, just above -2^31 and at -2^33; 9 counter/form combinations",
       "thorough": "0..300, -150..150 and the same windows"},
      [A_COMPILER, "indices keep one vector width distance from the limits of the counter type"],
      rule="a distinct (width, range length, sequence of step widths) the peeler produced", nontrivial="states")


def layout_builds():
    r = []
    for thorough, parts in ((False, 8), (True, 16)):
        for k in range(parts):
            n = "p02_%s%d" % ("t" if thorough else "q", k)
            r.append(Build("p02.cpp", name=n, flags=["-O0"], shards=1, thorough_only=thorough,
                           inc=["-I@WORK@/gen_" + n], prepare=gen_layout.prepare(k, parts, thorough, n)))
    return r


check("P02", "exploration",
      "exhaustive exploration of generated programs: every registered type over 8 member kinds up to 3 members, every cell and member address vs. the cumulative-offset layout",
      "Every type of the generated family is compiled against the real registration macros; the address of every element of every member at every cell, the published layout facts and the bytes of grids and arrays are compared with the layout definition.",
      layout_builds(),
      {"quick": "about 550 types (all sequences of up to 3 of 7-8 member kinds, pairs with 6 more kinds: 5 and 40 byte members, arrays of 17/33/300; 5/9/17/33/50 members) x 6 extents (4 small with all cells, 2 beyond 2^30/2^32 cells at the corners); types with 9 and 18 array members of arities 2..128; real grids beyond 2^32 cells; every type in a grid whose storage was exchanged",
       "thorough": "plus all 625 sequences of 4 of 5 member kinds"},
      [A_COMPILER],
      rule="a (type, extents) pair whose member addresses were compared at every explored cell")

check("P03", "exploration",
      "exhaustive exploration of the real accessors: every flavour x base cell x relative coordinate (also chained) by address, every writer x reader x cell by value with a byte-exact frame",
      "All five ways to hold an accessor (with and without compile-time index part), all coordinates of the cube [-2,2]^3, all chains of two in [-1,1]^3 (and selected chains of three), all base cells of the listed extents; 12 ways to write x 16 ways to read x all cells; copy_members between all flavours.",
      [Build("p03.cpp", name="p03_%d" % k, flags=["-O0"], shards=1, defs=["PART=%d" % k]) for k in (0, 1, 3, 4, 5, 6, 7)] + [Build("p03.cpp", name="p03_2", shards=1, defs=["PART=2"]), Build("p03_nested.cpp")],
      {"quick": "extents 5x4x3, 2x3x5, 7x1x1, 64x3x1, 16x8x5, 70000x3x70000 at its corners (addresses; also 6 far relative coordinates up to 70000); 3x2x2, 2x3x1, 5x1x1 (values); two extent pairs (copies); all pairs of 253 cell values with unusual bit patterns; 8 writers x 9 readers of cells with array members of arities 1..65; accessors across all sequences of 2 of 126 operations nested in 4 kinds of callbacks; functors of one type nested to depth 3: all choices of container, kind of callback and position, for vectors and grids of every kind of size list",
       "thorough": "plus all sequences of 3 nested operations"},
      [A_COMPILER],
      rule="a distinct (extents, base cell) whose complete neighbourhood was compared, or a distinct (writer, reader, cell) or (copy kind, from, to, count) combination", nontrivial="states")

check("P04", "model_checking",
      "stateless model checking of the real save/load: every run list, buffer offset and stride vs. a byte-exact buffer image; all save/load/write histories over two grids and two buffers",
      "Exhaustive within the bounds on the real code with AddressSanitizer and guard bytes around the buffers.",
      [Build("p04.cpp"), Build("p04_large.cpp"), HUGE("p04_large.cpp")],
      {"quick": "all lists of up to 3 runs on 3x2x2, 2x2x2, 4x1x1, 6x1x1 (2 on 5x3x2), count = total + 0..2; all transfers between pairs of equally shaped 2-run lists on 3x2x2; accessors: 6 flavours x all cells x counts x offsets 0..3 x strides; histories of 68 operations to depth 3; buffers at every address modulo 16; large rows (4130x1x1, 200x3x1, 70x65x1, 65x3x3): transfers at every position and length next to a power of two or built-in extent, as one and two runs; around 2^15..2^17 in rows of 65600 and 131080 cells; lists of 4..32769 runs in 4 orders, vector and list iterators; strides, offsets and extents beyond 2^32; array members of arities 1..65",
       "thorough": "plus lists of up to 65537 runs, 3-run lists on 5x2x2 and 4x2x2, transfers on 4x3x2, histories to depth 4"},
      [A_COMPILER, A_COPY, "runs of one load do not overlap; the buffer's count is at least the sum of the run lengths"])


CARGO = ["float", "double", "int"]


def sv_builds(src, isas=("scalar", "sse2", "sse4", "avx", "avx2", "avx512"), flags=("-O1",), cargo=CARGO, **kw):
    r = []
    stem = src.replace(".cpp", "")
    for isa in isas:
        for c in cargo:
            r.append(Build(src, isa=isa, name="%s_%s_%s" % (stem, isa, c), flags=list(flags), defs=["CARGO_T=" + c], distinct_states=True, **kw))
            # optimised code of another compiler
            kw2 = dict(kw, thorough_only=True, cxx="clang++")
            r.append(Build(src, isa=isa, name="%s_%s_%s_clang" % (stem, isa, c), flags=["-O2"], defs=["CARGO_T=" + c], distinct_states=True, **kw2))
            kw3 = dict(kw, thorough_only=True)
            r.append(Build(src, isa=isa, name="%s_%s_%s_O3" % (stem, isa, c), flags=["-O3"], defs=["CARGO_T=" + c], distinct_states=True, **kw3))
    return r


# Specialisations for processors other than this one run on stand-ins for the
# intrinsics (harness/foreign). Their vectors have no masks and no element access.
FOREIGN = {
    "neon": ["-D__ARM_NEON__", "-I@VERIF@/harness/foreign/neon"],
    "qpx": ["-D__VECTOR4DOUBLE__", "-include", "@VERIF@/harness/foreign/qpx/qpx.h"],
    "mic": ["-D__MIC__", "-I@VERIF@/harness/foreign/mic"],
}


def foreign(src, name, proc, defs=(), flags=("-O1",), **kw):
    return Build(src, isa="sse2", name=name, flags=list(flags) + ["-ffp-contract=off"], defs=["SV_FULL=0"] + list(defs), inc=FOREIGN[proc], foreign=True, **kw)


def foreign_sv(src, **kw):
    stem = src.replace(".cpp", "")
    return [foreign(src, "%s_%s_%s" % (stem, proc, c), proc, defs=["CARGO_T=" + c], distinct_states=True, **kw)
            for proc, c in (("neon", "float"), ("qpx", "double"), ("qpx", "float"), ("mic", "double"), ("mic", "float"))]


A_ISA = "instruction sets: scalar, SSE2, SSE4.1, AVX, AVX2, AVX-512 (all this CPU runs); NEON, QPX and MIC code runs on stand-ins for the intrinsics with the meaning their manuals give (harness/foreign), compiled for x86-64"

check("P14", "exploration",
      "exhaustive exploration of the real vector classes: every operation x form x operand pair x lane x width x element type x instruction set, every mask, all in-place histories to a depth vs. scalar arithmetic",
      "Bit-exact comparison of every lane with the scalar operation compiled by the same compiler (NaN payloads aside); operands from a boundary set, all 2^width masks up to width 16.",
      sv_builds("p14.cpp", shards=1) + foreign_sv("p14.cpp", shards=1),
      {"quick": "20-22 operand values, all pairs in every lane with 4 fillings of the other lanes; 7 operand forms; 5 comparisons; all masks (width 32: all with up to 3 lanes differing from all/none, ranges, bytes); histories of 3 in-place operations over 3 vectors (2 for width > 8); integer division q*b+{-1,0,1} over about 230 divisors x 230 quotients; printing in 5 stream formats, narrow and wide",
       "thorough": "12 fillings, 16-bit mask patterns for width 32, histories to depth 4, about 2000 x 2000 divisions, additionally g++ -O3 and clang++ -O2 builds"},
      [A_COMPILER, A_ISA, "integer arithmetic without overflow; lists hold as many elements as the vector"],
      rule="a (type, width, instruction set, operation, form, operand pair, lane, filling), a comparison or a mask whose complete result was compared lane by lane")

check("P15", "exploration",
      "exhaustive exploration of the real vector classes: every access x address x width x element type x instruction set between inaccessible pages; every lane x offset (all offset vectors for widths up to 4), whole range of offsets",
      "Every byte of the memory is compared after each access and both neighbouring pages are inaccessible, so reads and writes beyond the addressed elements are caught.",
      sv_builds("p15.cpp", shards=1) + foreign_sv("p15.cpp", shards=1),
      {"quick": "all addresses within 256 bytes of both ends of the memory; 9-11 bit patterns in every lane; gathers/scatters: all offset vectors over 40/16/6 offsets for widths 1/2/4, every (lane, offset in -8..31) in 6 surroundings, every pair of lanes x 16 offset pairs, 20 offsets from INT_MIN to INT_MAX in every lane",
       "thorough": "2048 bytes, 8^4 offset vectors, 64 offset pairs, additionally g++ -O3 and clang++ -O2 builds"},
      [A_COMPILER, A_ISA, "aligned and non-temporal accesses get the published alignment; AVX-512 gathers/scatters of floats and MIC gathers/scatters of 16 and more lanes get 64-byte aligned offset lists (the code asserts it); if several lanes scatter to one element any of them may win"],
      rule="a (type, width, instruction set, access, address or offset vector) after which all lanes and all memory were compared")

check("P16", "exploration",
      "exhaustive exploration of the real vector classes: every significand of divisor/radicand (thorough: every normal float), every pair of exponents, boundary doubles, perfect squares vs. double-precision / correctly rounded scalar results",
      "Quick: all 2^23 significands at 7 exponents and all pairs of exponents with 8 significands; thorough: all normal floats as divisor and radicand. Double precision: boundary significands at a grid of exponents, bit-exact.",
      sv_builds("p16.cpp", flags=("-O2",), shards=8) + foreign_sv("p16.cpp", flags=("-O2",), shards=8) +
      [foreign("p16.cpp", "p16_neon_float_precise", "neon", defs=["CARGO_T=float", "LIBFLATARRAY_WITH_INCREASED_PRECISION"], flags=("-O2",), shards=8, distinct_states=True)],
      {"quick": "float: 7 x 2^23 (NEON, MIC: 2 x 2^23) divisors/radicands, 254 x 254 exponent pairs x 16; double: about 640 boundary values, all pairs; integers: all perfect squares below 2^24 with 55 quotients below 1000; operands that differ strongly from lane to lane; 9 expressions each",
       "thorough": "float: all 254 x 2^23 (NEON, MIC: 7 x 2^23); double: about 5900 boundary values; additionally g++ -O3 and clang++ -O2 builds"},
      [A_COMPILER, A_ISA, "single-precision divisors below 2^126 in magnitude (the vector code multiplies with the reciprocal, which has to be normal); round-to-nearest, no flush-to-zero"],
      rule="a (width, instruction set, expression, exponent, block of 2^16 significands), (exponent, all exponents), double operand or perfect square for which every lane was compared")

check("P19", "exploration",
      "exhaustive exploration of the macros: every list macro x every list length 0..50 x every position/bound as expanded text; registered types of every member count 1..50, every member",
      "Complete over the supported lengths: the expansions are compared as text with the definition, the registered types are compiled and every member is written and read in every cell.",
      [Build("p19_table.cpp", name="p19_table", flags=["-O0"], shards=1, inc=["-I@WORK@/gen_p19_table"], prepare=gen_lists.prepare("p19_table"))] +
      [Build("p19_types.cpp", name="p19_types%d" % k, flags=["-O0"], shards=1, inc=["-I@WORK@/gen_p19_types%d" % k], prepare=gen_lists.prepare("p19_types%d" % k, k, 7)) for k in range(7)],
      {"quick": "lengths 0..50: size, element i, dequeue, for-each (plain and nested elements, also of a dequeued list), comparison with every bound 0..50; types of 1..50 members of 5 kinds, 12 cells",
       "thorough": "same (complete)"},
      [A_COMPILER],
      rule="a (macro, list length, position or bound) whose expansion was compared, or a registered type all of whose members were compared")

check("P18", "exploration",
      "exhaustive exploration of the compile-time selection: every element type x unroll factor x grid extent around the cache estimate x instruction set, executing the selected types at every published alignment",
      "Complete over the supported element types and unroll factors; extents around the estimate and at the corners of the size space.",
      [Build("p18.cpp", isa=i, name="p18_" + i, flags=["-O0"], defs=["EXPECT_BITS=%d" % b], shards=1)
       for i, b in (("scalar", 0), ("sse2", 128), ("sse4", 128), ("avx", 256), ("avx2", 256), ("avx512", 512))] +
      [foreign("p18.cpp", "p18_" + i, i, flags=["-O0"], defs=["EXPECT_BITS=%d" % b], shards=1) for i, b in (("neon", 128), ("qpx", 256), ("mic", 512))],
      {"quick": "element types float/double/int and non-vector types, every unroll factor, extents below/at/above the cache estimate, nine instruction sets (three on stand-ins)",
       "thorough": "same (complete within these bounds)"},
      [A_COMPILER, A_ISA],
      rule="a (instruction set, element type, unroll factor, extents) whose selected type was compared, or a (vector type, access, aligned address) that was executed")


WRAP = ["memcpy", "memmove", "memset", "memcmp", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"]

check("P17", "model_checking",
      "stateless model checking of the real code under a controlled scheduler: all schedules with at most 1 (thorough: 2) preemptions at every shared memory access for every pair of operations, with a vector-clock race check on every execution; triples by the partial-order argument",
      "Compiled with -fsanitize=thread against an own runtime, which sees every memory access, atomic, lock and static initialisation. Every execution is checked for races, per-thread results and the final state. A race-free execution without synchronisation represents all its interleavings.",
      [Build("p17.cpp", flags=["-O0", "-g1", "-fsanitize=thread"], runtime=["p17_rt.cpp"], libs=["-pthread", "-Wl," + ",".join("--wrap=" + w for w in WRAP)])],
      {"quick": "22 const operations, 12 disjoint updates, 30 operations on own containers: all pairs within and reader x own, preemption bound 1 at every access; all triples of readers and of writers, preemption bound 0 with race check",
       "thorough": "triples of readers/writers with preemption bound 1, pairs of readers/writers with bound 2, all triples of operations on own containers"},
      [A_COMPILER, "memory accesses inside libstdc++/libc functions that are not header code are seen only for memcpy/memmove/memset/memcmp and operator new/delete; sequential consistency (race-free programs have no other behaviours)"])


check("P20", "model_checking",
      "stateless model checking of the real host and kernel code on an emulated device: all histories of the host interface to a depth, all single allocation failures, every launch executed thread by thread with a conflict check over all its accesses",
      "The headers are compiled as for CUDA (only the launch syntax is translated) against an own runtime, which owns the device memory and sees every access of host and kernel code. Threads of a launch without conflicting accesses are independent: one order represents all; launches with conflicts are run in several orders and have to agree. The runtime itself was validated with the repository's CUDA tests.",
      [Build("p20.cpp", flags=["-O1", "-g1", "-fno-lifetime-dse", "-fsanitize=thread", "-include", "cuda/cuda_emu.hpp"], defs=["__CUDACC__", "LIBFLATARRAY_WITH_CUDA"],
             inc=["-I@WORK@/gen_p20", "-I@VERIF@/harness/cuda", "-I@VERIF@/harness"], prepare=gen_cuda.prepare("p20"), runtime=["cuda_rt.cpp"],
             libs=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"])],
      {"quick": "two device grids: 32 operations (set, rows, broadcasts, resize, save/load, swap, user kernels, failing allocations) from 36 pairs of shapes, depth 2 (6 pairs: 3); device arrays: 38 operations to depth 3, to depth 5 over distinct states; grid and array sizes around 32/128/512/1024 with every operation; single axes (x, y: 66000, z: 32800) beyond 8- and 16-bit counters; fixed-capacity arrays in kernels",
       "thorough": "depth 3 (4), arrays to depth 4 (7), more sizes"},
      [A_COMPILER, "the emulated device stands for a real one: synchronous launches, one memory, no device-side limits other than those on launch dimensions; memory contents before the first write are arbitrary", "registered members keep no host pointers (cells travel to the device bytewise)"])


check("P21", "exploration",
      "exhaustive exploration of the real testbed in a controlled environment: all contents of /proc/cpuinfo and likwid-topology's output up to 4 lines over alphabets of 16 and 12 lines, all combinations of evaluation names, families, dimensions, output and devices, all histories of up to 4 evaluations",
      "Clock, host name, the two sources of the CPU's name, pipes and the CUDA device are stand-ins within the harness, nothing of the machine is read. The expected names and lines are computed from the alphabet, not by parsing.",
      [Build("p21.cpp", inc=["-I@VERIF@/harness/p21_inc"], libs=["-ldl"])],
      {"quick": "/proc/cpuinfo: all sequences of up to 4 of 16 lines (with and without line end, likwid-topology absent, silent or half useful), rows of up to 20000 characters, up to 2000 lines before the name; likwid-topology: all sequences of up to 4 of 12 lines with and without /proc/cpuinfo; evaluations: all pairs of choices for two of ten parameters, names x families x dimensions x output x device completely, histories of up to 4 evaluations x 7 names and of up to 4 queries in 8 surroundings; 55 clock readings",
       "thorough": "up to 5 lines, histories of up to 5 evaluations"},
      [A_COMPILER, "C locale; the testbed reads its sources through libc (fopen, open, popen, gethostname, gettimeofday/clock_gettime)"],
      rule="a query for the CPU's name or an evaluation whose complete result was compared")
