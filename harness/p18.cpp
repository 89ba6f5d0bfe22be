// P18: compile-time selection of vector types and alignment facts.
// EXPECT_BITS: register width of the instruction set this is compiled for (0:
// scalar code, the register holds one element)
#include "mc.hpp"
#include <type_traits>
#include <sys/mman.h>
#include <libflatarray/flat_array.hpp>

using namespace LibFlatArray;

#ifdef SV_FULL // stand-ins for other processors
extern "C" void verif_misaligned(const char *what, unsigned n)
{
    mc::fail("%s with an address which is no multiple of %u", what, n);
    std::abort();
}
#endif

template<int BYTES> struct Cell { char c[BYTES]; };

template<typename CELL, long X, long Y, long Z> struct Acc
{
    typedef CELL element_type;
    static const long DIM_PROD = X * Y * Z;
};

// real accessors
struct Small { float a; char b; };
struct Big { double a[20]; int b; float c[3]; };
LIBFLATARRAY_REGISTER_SOA(Small, ((float)(a))((char)(b)))
LIBFLATARRAY_REGISTER_SOA(Big, ((double)(a)(20))((int)(b))((float)(c)(3)))

template<typename V> struct kind { static const bool known = false; };
template<typename T, std::size_t N> struct kind<short_vec<T, N> > { static const bool known = true, streaming = false; static const std::size_t arity = N; typedef T cargo; };
template<typename T, std::size_t N> struct kind<streaming_short_vec<T, N> > { static const bool known = true, streaming = true; static const std::size_t arity = N; typedef T cargo; };

template<typename T> constexpr std::size_t lanes(std::size_t unroll)
{
    return EXPECT_BITS ? unroll * EXPECT_BITS / 8 / sizeof(T) : unroll;
}
constexpr bool supported(std::size_t n) { return n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32; }

static long CASE = 0;

// ------------------------------------------------------------ the estimate
template<typename T, typename ACC, int UNROLL, int CACHE, bool SUPPORTED>
struct Estimate
{
    static void run(std::size_t bytes_per_cell)
    {
        ++CASE;
        if (!mc::begin("estimate", {CASE})) return;
        typedef typename estimate_optimum_short_vec_type<T, ACC, UNROLL, CACHE>::VALUE V;
        typedef kind<V> K;
        std::snprintf(mc::g().note, sizeof(mc::g().note), "element size %d, unroll %d, %ld cells of %d bytes, cache %d", int(sizeof(T)), UNROLL, long(ACC::DIM_PROD), int(bytes_per_cell), CACHE);
        MC_CHECK(K::known, "neither short_vec nor streaming_short_vec");
        MC_CHECK((std::is_same<typename K::cargo, T>::value), "element type changed");
        MC_CHECK(K::arity == lanes<T>(UNROLL), "width %d, expected %d", int(K::arity), int(lanes<T>(UNROLL)));
        std::size_t width = ilp_to_arity<T, UNROLL>::ARITY;
        MC_CHECK(width == lanes<T>(UNROLL), "ilp_to_arity gives %d, expected %d", int(width), int(lanes<T>(UNROLL)));
        unsigned __int128 bytes = (unsigned __int128)(ACC::DIM_PROD) * bytes_per_cell;
        bool stream = bytes >= (unsigned __int128)CACHE;
        MC_CHECK(K::streaming == stream, "streaming is %d, expected %d", int(K::streaming), int(stream));
        // a supported width: the type can be used
        alignas(128) T buf[lanes<T>(UNROLL)];
        V v(T(3));
        v.store_nt(buf);
        MC_CHECK(buf[0] == T(3) && buf[lanes<T>(UNROLL) - 1] == T(3) && V::ARITY == lanes<T>(UNROLL), "the selected vector does not work");
        mc::g().note[0] = 0;
        mc::step(5);
        mc::count_label("nontrivial");
    }
};
template<typename T, typename ACC, int UNROLL, int CACHE>
struct Estimate<T, ACC, UNROLL, CACHE, false> { static void run(std::size_t) {} };

template<typename T, typename ACC, int CACHE>
static void unrolls(std::size_t bytes)
{
    Estimate<T, ACC, 1, CACHE, supported(lanes<T>(1))>::run(bytes);
    Estimate<T, ACC, 2, CACHE, supported(lanes<T>(2))>::run(bytes);
    Estimate<T, ACC, 4, CACHE, supported(lanes<T>(4))>::run(bytes);
    Estimate<T, ACC, 8, CACHE, supported(lanes<T>(8))>::run(bytes);
    Estimate<T, ACC, 16, CACHE, supported(lanes<T>(16))>::run(bytes);
}

template<typename ACC>
static void caches(std::size_t bytes)
{
    unrolls<double, ACC, 1 << 25>(bytes);
    unrolls<float, ACC, 1 << 25>(bytes);
    unrolls<int, ACC, 1 << 25>(bytes);
    unrolls<float, ACC, 1 << 16>(bytes);
    unrolls<double, ACC, 1000000>(bytes);
}

// the default arguments: unroll factor 2, cache 2^25
template<typename T, typename ACC>
static void defaults()
{
    if (!mc::begin("defaults", {long(sizeof(T)), ACC::DIM_PROD})) return;
    MC_CHECK((std::is_same<typename estimate_optimum_short_vec_type<T, ACC>::VALUE, typename estimate_optimum_short_vec_type<T, ACC, 2, (1 << 25)>::VALUE>::value), "defaults are not unroll factor 2, cache 2^25");
    mc::step();
}

// quotients of size and estimate around and beyond 2^31 and 2^32
template<int BYTES, long CELLS>
static void large_quotient()
{
    typedef Cell<BYTES> C;
    unrolls<float, Acc<C, CELLS, 1, 1>, 1>(BYTES);
    unrolls<double, Acc<C, CELLS, 1, 1>, 2>(BYTES);
    unrolls<float, Acc<C, CELLS, 1, 1>, 1 << 16>(BYTES);
}

// exact boundary: grids one cell below, at and above the cache estimate
template<int BYTES, long CELLS_AT>
static void boundary()
{
    typedef Cell<BYTES> C;
    caches<Acc<C, CELLS_AT - 1, 1, 1> >(BYTES);
    caches<Acc<C, CELLS_AT, 1, 1> >(BYTES);
    caches<Acc<C, CELLS_AT + 1, 1, 1> >(BYTES);
}

// --------------------------------------------------------------- alignment
static unsigned char *page()
{
    static unsigned char *p = 0;
    if (!p) {
        p = (unsigned char *)mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) std::exit(5);
    }
    return p;
}

template<typename V, typename T>
static void aligned_at(long id)
{
    const std::size_t A = alignment<V>::VALUE;
    const int N = V::ARITY;
    if (!mc::begin("alignment", {id})) return;
    MC_CHECK(A > 0 && (A & (A - 1)) == 0 && A <= 4096, "alignment %d is no power of two", int(A));
    MC_CHECK(A % sizeof(T) == 0, "alignment %d is no multiple of the element size", int(A));
    // sufficient: aligned and non-temporal accesses work at every multiple
    for (std::size_t off = 0; off + N * sizeof(T) <= 4096; off += A) {
        T *p = (T *)(page() + 4096 + off);
        std::memset(page(), 0x77, 3 * 4096);
        T in[N], out[N];
        for (int i = 0; i < N; ++i) in[i] = T(i * 3 + 1);
        std::memcpy(p, in, sizeof(in));
        V v;
        v.load_aligned(p);
        static_cast<const short_vec<T, V::ARITY>&>(v).store(out);
        MC_CHECK(!std::memcmp(in, out, sizeof(in)), "aligned load at a multiple of the alignment");
        for (int i = 0; i < N; ++i) in[i] = T(i * 5 + 2);
        V w(static_cast<const T *>(in));
        w.store_aligned(p);
        MC_CHECK(!std::memcmp(in, p, sizeof(in)), "aligned store at a multiple of the alignment");
        std::memset(p, 0, sizeof(in));
        w.store_nt(p);
        MC_CHECK(!std::memcmp(in, p, sizeof(in)), "non-temporal store at a multiple of the alignment");
        mc::step(3);
    }
    // an allocation by the library with this alignment can be used
    std::vector<T, aligned_allocator<T, A> > vec(2 * N);
    V(T(1)).store_nt(&vec[0]);
    MC_CHECK(vec[0] == T(1) && vec[N - 1] == T(1), "store to an aligned allocation");
    mc::count_label("nontrivial");
}

template<typename T, std::size_t N>
static void facts(long id)
{
    aligned_at<short_vec<T, N>, T>(id);
    aligned_at<streaming_short_vec<T, N>, T>(id + 1000);
    if (!mc::begin("alignment_agrees", {id})) return;
    MC_CHECK((alignment<short_vec<T, N> >::VALUE == alignment<streaming_short_vec<T, N> >::VALUE), "streaming and plain vector differ in alignment");
    mc::step();
}

// ---------------------------------------------------------------- siblings
template<typename T, std::size_t A, std::size_t B>
static void sibling()
{
    if (!mc::begin("sibling", {long(sizeof(T)), A, B})) return;
    using detail::flat_array::sibling_short_vec_switch;
    using detail::flat_array::streaming_short_vec_switch;
    MC_CHECK((std::is_same<typename sibling_short_vec_switch<short_vec<T, A>, B>::VALUE, short_vec<T, B> >::value), "sibling of a short_vec");
    MC_CHECK((std::is_same<typename sibling_short_vec_switch<streaming_short_vec<T, A>, B>::VALUE, streaming_short_vec<T, B> >::value), "sibling of a streaming_short_vec");
    MC_CHECK((std::is_same<typename streaming_short_vec_switch<T, A, 0>::VALUE, short_vec<T, A> >::value), "no streaming");
    MC_CHECK((std::is_same<typename streaming_short_vec_switch<T, A, int(B)>::VALUE, streaming_short_vec<T, A> >::value), "streaming");
    mc::step(4);
    mc::count_label("nontrivial");
}

template<typename T, std::size_t A>
static void siblings()
{
    sibling<T, A, 1>(); sibling<T, A, 2>(); sibling<T, A, 4>(); sibling<T, A, 8>(); sibling<T, A, 16>(); sibling<T, A, 32>();
}

template<typename T>
static void widths(long id)
{
    facts<T, 1>(id); facts<T, 2>(id + 1); facts<T, 4>(id + 2); facts<T, 8>(id + 3); facts<T, 16>(id + 4); facts<T, 32>(id + 5);
    siblings<T, 1>(); siblings<T, 2>(); siblings<T, 4>(); siblings<T, 8>(); siblings<T, 16>(); siblings<T, 32>();
}

template<typename CELL, long X, long Y, long Z>
static void real()
{
    caches<soa_accessor<CELL, X, Y, Z, 0> >(sizeof(CELL));
    caches<const_soa_accessor<CELL, X, Y, Z, 0> >(sizeof(CELL));
    caches<soa_accessor_light<CELL, X, Y, Z, 0> >(sizeof(CELL));
    defaults<float, soa_accessor<CELL, X, Y, Z, 0> >();
    defaults<double, soa_accessor<CELL, X, Y, Z, 0> >();
    defaults<int, soa_accessor<CELL, X, Y, Z, 0> >();
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    boundary<1, 1 << 25>();
    boundary<8, 1 << 22>();
    boundary<12, 2796203>();
    boundary<12, 83334>();
    boundary<16, 62500>();
    boundary<64, 1 << 10>();
    boundary<4, 1 << 14>();
    boundary<10, 100000>();
    boundary<1000, 2>();
    boundary<1, 2>();
    large_quotient<4, 1l << 28>();
    large_quotient<4, 1l << 29>();
    large_quotient<4, 1l << 30>();
    large_quotient<8, 1l << 30>();
    large_quotient<8, (1l << 30) + 1>();
    large_quotient<16, 1l << 32>();
    large_quotient<64, 1l << 42>();
    real<Small, 32, 32, 1>();
    real<Small, 64, 64, 64>();
    real<Small, 1024, 1, 1>();
    real<Small, 128, 128, 256>();
    real<Small, 161, 161, 161>();
    real<Small, 1024, 1024, 1024>();
    real<Small, 8192, 8192, 8192>();
    real<Big, 32, 32, 1>();
    real<Big, 64, 64, 64>();
    real<Big, 8192, 8192, 1>();
    real<Big, 4096, 1, 1>();
    real<Big, 2048, 2048, 2048>();
    widths<double>(0);
    widths<float>(10);
    widths<int>(20);
    mc::sample("float, unroll 2, 2^22 cells of 8 bytes, cache 2^25: streaming, width 2 registers");
    mc::sample("float, unroll 2, 2^22 - 1 cells of 8 bytes: not streaming");
    return mc::finish();
}
