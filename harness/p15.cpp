// P15: loads, stores, gathers and scatters. Memory is a window between two
// inaccessible pages, so any access beyond it is caught; every byte inside is
// compared.
#include "sv.hpp"
#include <sys/mman.h>

static const std::size_t PAGE = 4096;

struct Arena
{
    unsigned char *lo, *hi;  // usable memory
    std::vector<unsigned char> image;

    explicit Arena(std::size_t pages = 1)
    {
        unsigned char *p = (unsigned char *)mmap(0, (pages + 2) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED || mprotect(p + PAGE, pages * PAGE, PROT_READ | PROT_WRITE)) {
            std::printf("cannot map memory\n");
            std::exit(5);
        }
        lo = p + PAGE;
        hi = lo + pages * PAGE;
        image.resize(hi - lo);
    }

    void fill(unsigned seed)
    {
        uint32_t x = seed * 2654435761u + 12345;
        for (std::size_t i = 0; i < image.size(); ++i) {
            x = x * 1664525u + 1013904223u;
            image[i] = (unsigned char)(x >> 24);
        }
        std::memcpy(lo, &image[0], image.size());
    }

    void expect(const void *at, const void *what, std::size_t n) { std::memcpy(&image[(unsigned char *)at - lo], what, n); }

    void compare(const char *what)
    {
        if (std::memcmp(lo, &image[0], image.size()) == 0) return;
        for (std::size_t i = 0; i < image.size(); ++i) {
            if (lo[i] != image[i]) mc::fail("%s: byte %d of the memory (of %d) is 0x%02x, expected 0x%02x", what, int(i), int(image.size()), lo[i], image[i]);
        }
    }
};

static Arena *mem, *mem2, *offs;

static std::vector<Bits> patterns(int_<1>)
{
    std::vector<Bits> r;
    uint32_t x[] = {0, 0x80000000u, 0x7f800001u, 0xffc12345u, 0xffffffffu, 1, 0x7fffffffu, 0x3f800000u, 0x00010203u};
    for (uint32_t v : x) r.push_back(Bits(v));
    return r;
}
static std::vector<Bits> patterns(int_<3>) { return patterns(int_<1>()); }
static std::vector<Bits> patterns(int_<2>)
{
    std::vector<Bits> r;
    uint64_t x[] = {0, 0x8000000000000000ull, 0x7ff0000000000001ull, 0xfff8123456789abcull, ~0ull, 1, 0x7fffffffffffffffull, 0x3ff0000000000000ull, 0x0001020304050607ull,
                    0xffffffff00000000ull, 0x00000000ffffffffull};
    for (uint64_t v : x) r.push_back(Bits(v));
    return r;
}
static std::vector<Bits> PAT;

static Bits lane_bits(int i, int round)
{
    uint64_t h = mc::mix(mc::mix(77, i), round);
    return Bits(h);
}

template<typename V>
static void lanes_are(const V& v, const Bits *e, const char *what)
{
    // read the lanes back through the object's own storage independent of the
    // store under test where possible: both are compared
    const int N = V::ARITY;
    alignas(64) T out[N];
    static_cast<const short_vec<T, V::ARITY>&>(v).store(out);
    for (int i = 0; i < N; ++i) {
        MC_CHECK(bits(out[i]) == e[i], "%s: lane %d of %d is 0x%llx, expected 0x%llx", what, i, N, (unsigned long long)bits(out[i]), (unsigned long long)e[i]);
    }
    mc::step(N);
}

template<typename V>
static int alignment() { return V::strategy::template alignment<T>::ALIGNMENT; }

enum Access { LOAD, CONSTRUCT, LOAD_ALIGNED, STORE, SHIFT, STORE_ALIGNED, STORE_NT, ACCESSES };
static const char *ACCESSNAME[] = {"load", "construct", "load_aligned", "store", "operator<<", "store_aligned", "store_nt"};

template<typename V, bool STREAMING>
static bool needs_alignment(int acc)
{
    if (acc == LOAD_ALIGNED || acc == STORE_ALIGNED || acc == STORE_NT) return true;
    return STREAMING && acc == STORE;
}

template<typename V, bool STREAMING>
static void __attribute__((noinline)) one_access(int acc, T *at, const Bits *e)
{
    const int N = V::ARITY;
    alignas(64) T tmp[N];
    std::memcpy(tmp, e, sizeof(tmp));
    switch (acc) {
    case LOAD: case CONSTRUCT: case LOAD_ALIGNED: {
        std::memcpy(at, tmp, sizeof(tmp));
        mem->expect(at, tmp, sizeof(tmp));
        if (acc == CONSTRUCT) {
            V v(static_cast<const T *>(at));
            lanes_are(v, e, ACCESSNAME[acc]);
        } else {
            V v(T(42));
            if (acc == LOAD) v.load(at); else v.load_aligned(at);
            lanes_are(v, e, ACCESSNAME[acc]);
        }
        break;
    }
    default: {
        V v(static_cast<const T *>(tmp));
        if (acc == STORE) v.store(at);
        if (acc == SHIFT) at << v;
        if (acc == STORE_ALIGNED) v.store_aligned(at);
        if (acc == STORE_NT) v.store_nt(at);
        mem->expect(at, tmp, sizeof(tmp));
        lanes_are(v, e, "the stored vector itself");
        break;
    }
    }
    mem->compare(ACCESSNAME[acc]);
    mc::step();
}

template<typename V, bool STREAMING>
static void accesses(long id)
{
    const int N = V::ARITY;
    const int bytes = N * int(sizeof(T));
    Bits e[N];
    std::vector<T *> at;
    int span = mc::thorough() ? 2048 : 256;
    // every address near the lower and the upper end of the memory
    for (int k = 0; k < span / int(sizeof(T)); ++k) at.push_back((T *)mem->lo + k);
    for (int k = span / int(sizeof(T)) - 1; k >= 0; --k) at.push_back((T *)(mem->hi - bytes) - k);
    for (int acc = 0; acc < ACCESSES; ++acc) {
        for (std::size_t k = 0; k < at.size(); ++k) {
            if (needs_alignment<V, STREAMING>(acc) && (uintptr_t)at[k] % alignment<V>()) continue;
            if (!mc::begin("access", {id, acc, long(k)})) continue;
            mem->fill(unsigned(k * 7 + acc));
            for (int i = 0; i < N; ++i) e[i] = lane_bits(i, int(k));
            one_access<V, STREAMING>(acc, at[k], e);
            mc::count_label("nontrivial");
        }
        // special bit patterns in every lane
        for (int lane = 0; lane < N; ++lane) {
            for (std::size_t p = 0; p < PAT.size(); ++p) {
                for (int end = 0; end < 2; ++end) {
                    T *a = end ? (T *)(mem->hi - bytes) : (T *)mem->lo;
                    if (needs_alignment<V, STREAMING>(acc)) a = (T *)((uintptr_t)a / alignment<V>() * alignment<V>());
                    if (!mc::begin("pattern", {id, acc, lane, long(p), end})) continue;
                    mem->fill(unsigned(p));
                    for (int i = 0; i < N; ++i) e[i] = lane_bits(i, lane);
                    e[lane] = PAT[p];
                    one_access<V, STREAMING>(acc, a, e);
                    mc::count_label("nontrivial");
                }
            }
        }
    }
}

// ------------------------------------------------------------ gather, scatter
template<typename V> struct aligned_offsets { static const bool value = false; };
static bool is_avx512(short_vec_strategy::avx512f) { return true; }
template<typename S> static bool is_avx512(S) { return false; }
static bool is_mic(short_vec_strategy::mic) { return true; }
template<typename S> static bool is_mic(S) { return false; }

// where the list of offsets lies: behind the inaccessible page, right before
// the next one, or in between at an odd address
template<typename V>
static int *place_offsets(const std::vector<int>& o, int where)
{
    const int N = V::ARITY;
    offs->fill(unsigned(where + 3));
    int *p;
    bool list_aligned = is_avx512(typename V::strategy()) && sizeof(T) == sizeof(float) && T(0.5) != T(0);
    // ... and those for MIC, if they need whole registers of offsets
    list_aligned = list_aligned || (is_mic(typename V::strategy()) && N >= 16);
    if (list_aligned) {
        // the AVX-512 gathers of floats ask for 64-byte aligned offsets (asserted)
        uintptr_t a = where == 1 ? (uintptr_t)offs->hi - N * sizeof(int) : (uintptr_t)offs->lo;
        p = (int *)(a / 64 * 64);
    } else {
        p = where == 0 ? (int *)offs->lo : where == 1 ? (int *)offs->hi - N : (int *)offs->lo + 8 + where;
    }
    std::memcpy(p, &o[0], N * sizeof(int));
    offs->expect(p, &o[0], N * sizeof(int));
    return p;
}

// base: pointer so that offset lo is the first, hi the last usable element
template<typename V>
static void gather_scatter(const std::vector<int>& o, T *base, int where, int round)
{
    const int N = V::ARITY;
    typedef short_vec<T, V::ARITY> B;
    int *op = place_offsets<V>(o, where);
    Bits e[N];

    mem->fill(unsigned(round));
    std::memcpy(mem2->lo, mem->lo, PAGE);
    for (int i = 0; i < N; ++i) std::memcpy(&e[i], base + o[i], sizeof(T));
    V v(T(round % 3));
    v.gather(base, op);
    lanes_are(v, e, "gather");
    mem->compare("memory after gather");
    offs->compare("offsets after gather");

    // scatter new values
    alignas(64) T tmp[N];
    for (int i = 0; i < N; ++i) tmp[i] = from_bits(lane_bits(i, round + 1));
    V w(static_cast<const T *>(tmp));
    w.scatter(base, op);
    for (int i = 0; i < N; ++i) {
        // several lanes for one element: any of them may win
        bool ok = false;
        Bits got;
        std::memcpy(&got, base + o[i], sizeof(T));
        for (int j = 0; j < N; ++j) ok = ok || (o[j] == o[i] && got == bits(tmp[j]));
        MC_CHECK(ok, "scatter: the element of lane %d of %d (offset %d) holds 0x%llx", i, N, o[i], (unsigned long long)got);
        mem->expect(base + o[i], &got, sizeof(T));
    }
    mem->compare("memory after scatter");
    offs->compare("offsets after scatter");
    Bits t[N];
    std::memcpy(t, tmp, sizeof(tmp));
    lanes_are(w, t, "the scattered vector itself");
    mc::step(2);
}

template<typename V>
static void offsets(long id)
{
    const int N = V::ARITY;
    const int W = 40; // window of offsets: -8 .. 31
    const int MIN = -8, MAX = MIN + W - 1;
    std::vector<int> o(N);
    T *at_lo = (T *)mem->lo - MIN;
    T *at_hi = (T *)mem->hi - 1 - MAX;

    // all offset vectors for the narrow widths
    if (N <= 4) {
        int w = N == 1 ? 40 : N == 2 ? 16 : (mc::thorough() ? 8 : 6);
        long total = 1;
        for (int i = 0; i < N; ++i) total *= w;
        for (long k = 0; k < total; ++k) {
            for (int end = 0; end < 2; ++end) {
                if (!mc::begin("vector", {id, k, end})) continue;
                long x = k;
                for (int i = 0; i < N; ++i) { o[i] = end ? MAX - int(x % w) : MIN + int(x % w); x /= w; }
                gather_scatter<V>(o, end ? at_hi : at_lo, int(k % 5), int(k));
                mc::count_label("nontrivial");
            }
        }
    }
    // every lane x every offset within base patterns; every pair of lanes
    for (int pat = 0; pat < 6; ++pat) {
        for (int lane = 0; lane < N; ++lane) {
            for (int off = MIN; off <= MAX; ++off) {
                for (int end = 0; end < 2; ++end) {
                    if (!mc::begin("lane", {id, pat, lane, off, end})) continue;
                    for (int i = 0; i < N; ++i) {
                        switch (pat) {
                        case 0: o[i] = i; break;
                        case 1: o[i] = N - 1 - i; break;
                        case 2: o[i] = MAX; break;
                        case 3: o[i] = MIN; break;
                        case 4: o[i] = MIN + (i * 7 + 3) % W; break;
                        default: o[i] = i ^ 1; break;
                        }
                    }
                    o[lane] = off;
                    gather_scatter<V>(o, end ? at_hi : at_lo, (off + lane + 80) % 6, pat * 100 + lane);
                    mc::count_label("nontrivial");
                }
            }
        }
    }
    for (int l1 = 0; l1 < N; ++l1) {
        for (int l2 = 0; l2 < N; ++l2) {
            if (l1 == l2) continue;
            for (int k = 0; k < (mc::thorough() ? 64 : 16); ++k) {
                if (!mc::begin("pair", {id, l1, l2, k})) continue;
                int q = mc::thorough() ? 8 : 4;
                for (int i = 0; i < N; ++i) o[i] = MIN + i;
                o[l1] = MAX - k / q;
                o[l2] = MAX - 1 - k % q - q;
                gather_scatter<V>(o, at_hi, k % 6, k);
                mc::count_label("nontrivial");
            }
        }
    }
}

// the whole range of offsets, in a reserved part of the address space
static unsigned char *far_memory()
{
    static unsigned char *p = 0;
    static bool tried = false;
    if (!tried) {
        tried = true;
        std::size_t n = (std::size_t(1) << 32) * sizeof(T) + 4 * PAGE;
        void *q = mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q != MAP_FAILED) p = (unsigned char *)q;
    }
    return p;
}

template<typename V>
static void far_offsets(long id)
{
    const int N = V::ARITY;
    unsigned char *far = far_memory();
    if (!far) { mc::extra("far_offsets_skipped", 1); return; }
    T *base = (T *)(far + 2 * PAGE + (std::size_t(1) << 31) * sizeof(T));
    const long long cand[] = {-2147483648LL, -2147483647LL, -1073741825LL, -1073741824LL, -536870913LL, -536870912LL, -268435457LL, -65537, -32769, -1, 0,
                              32768, 65536, 268435456, 536870911, 536870912LL, 1073741823LL, 1073741824LL, 2147483646LL, 2147483647LL};
    std::vector<int> o(N);
    for (long long c : cand) mprotect((void *)((uintptr_t)(base + c) / PAGE * PAGE), PAGE, PROT_READ | PROT_WRITE);
    for (int lane = 0; lane < N; ++lane) {
        for (int k = 0; k < 20; ++k) {
            for (int form = 0; form < 2; ++form) {
                if (!mc::begin("far", {id, lane, k, form})) continue;
                for (int i = 0; i < N; ++i) o[i] = form ? 0 : int(cand[(k + i + 1) % 20]);
                o[lane] = int(cand[k]);
                int *op = place_offsets<V>(o, (lane + k) % 5);
                for (int j = 0; j < 20; ++j) { Bits b = lane_bits(j, 5); std::memcpy(base + cand[j], &b, sizeof(b)); }
                Bits e[N];
                for (int i = 0; i < N; ++i) std::memcpy(&e[i], base + o[i], sizeof(T));
                V v;
                v.gather(base, op);
                lanes_are(v, e, "gather over the whole range of offsets");
                alignas(64) T tmp[N];
                for (int i = 0; i < N; ++i) tmp[i] = from_bits(lane_bits(o[i], 6));
                V w(static_cast<const T *>(tmp));
                w.scatter(base, op);
                for (int j = 0; j < 20; ++j) {
                    bool hit = false;
                    for (int i = 0; i < N; ++i) hit = hit || o[i] == int(cand[j]);
                    Bits want = hit ? lane_bits(int(cand[j]), 6) : lane_bits(j, 5), got;
                    std::memcpy(&got, base + cand[j], sizeof(got));
                    MC_CHECK(got == want, "scatter over the whole range of offsets: element %lld", cand[j]);
                }
                mc::step(2);
                mc::count_label("nontrivial");
            }
        }
    }
}

static bool mine(long id) { return mc::g().replay || int(id % mc::g().shards) == mc::g().shard; }

template<typename V, bool STREAMING>
static void width(long id)
{
    if (!mine(id)) return;
    accesses<V, STREAMING>(id);
    offsets<V>(id);
    far_offsets<V>(id);
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    mem = new Arena;
    mem2 = new Arena;
    offs = new Arena;
    PAT = patterns(int_<bits_of<T>::code>());
    width<short_vec<T, 1>, false>(0);
    width<short_vec<T, 2>, false>(1);
    width<short_vec<T, 4>, false>(2);
    width<short_vec<T, 8>, false>(3);
    width<short_vec<T, 16>, false>(4);
    width<short_vec<T, 32>, false>(5);
    width<streaming_short_vec<T, 1>, true>(6);
    width<streaming_short_vec<T, 2>, true>(7);
    width<streaming_short_vec<T, 4>, true>(8);
    width<streaming_short_vec<T, 8>, true>(9);
    width<streaming_short_vec<T, 16>, true>(10);
    width<streaming_short_vec<T, 32>, true>(11);
    mc::sample("store of 8 lanes ending at the last byte before an inaccessible page, all bytes of the page compared");
    mc::sample("gather: lane 5 at offset 31, the others at 0..7, the offset list ending right before an inaccessible page");
    return mc::finish();
}
