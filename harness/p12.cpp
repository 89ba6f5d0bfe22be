// P12: aligned allocation. The heap below the allocator is replaced by one that
// returns every possible address residue; guard zones, bookkeeping and release
// are checked for every alignment, element type, count and interleaving.
#include "mc.hpp"
#include <libflatarray/aligned_allocator.hpp>
#include <sys/mman.h>
#include <set>
#include <deque>
#include <list>
#include <map>
#include <type_traits>
#include <vector>

struct Heap
{
    bool on = false;
    std::size_t residue = 0, modulus = 1;
    enum { SLOTS = 24, GUARD = 256 };
    struct Block { char *p; std::size_t n; bool live; } b[SLOTS];
    char *arena[SLOTS];
    std::size_t arena_size = 1 << 23;
    bool huge = false; std::size_t huge_request = 0;
    int news = 0, deletes = 0;
    bool grant_big = false, no_room = false;
    struct Big { char *map; std::size_t mapped; char *p; std::size_t n; bool live; } big = {0, 0, 0, 0, false};

    Heap()
    {
        for (int i = 0; i < SLOTS; ++i) {
            arena[i] = (char*)mmap(0, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            b[i].live = false;
        }
    }
    void *get(std::size_t n)
    {
        ++news;
        if (n > arena_size / 2) {
            huge = true; huge_request = n;
            if (!grant_big || big.live || n > (std::size_t(1) << 42)) throw std::bad_alloc();
            big.mapped = n + modulus * 2 + 8192;
            big.map = (char*)mmap(0, big.mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (big.map == MAP_FAILED) { no_room = true; throw std::bad_alloc(); }
            std::size_t base = reinterpret_cast<std::size_t>(big.map);
            base += (modulus - base % modulus) % modulus + residue;
            big.p = reinterpret_cast<char*>(base);
            big.n = n;
            big.live = true;
            return big.p;
        }
        for (int i = 0; i < SLOTS; ++i) {
            if (!b[i].live) {
                std::size_t base = reinterpret_cast<std::size_t>(arena[i]) + GUARD;
                base += (modulus - base % modulus) % modulus + residue;
                char *p = reinterpret_cast<char*>(base);
                std::memset(p - GUARD, 0xEE, n + 2 * GUARD);
                b[i].p = p;
                b[i].n = n;
                b[i].live = true;
                return p;
            }
        }
        throw std::bad_alloc();
    }
    bool put(void *q, std::size_t n, bool sized)
    {
        if (big.live && big.p == q) {
            ++deletes;
            MC_CHECK(!sized || n == big.n, "block of %zu bytes released as %zu bytes", big.n, n);
            munmap(big.map, big.mapped);
            big.live = false;
            return true;
        }
        for (int i = 0; i < SLOTS; ++i) {
            if (b[i].live && b[i].p == q) {
                ++deletes;
                MC_CHECK(!sized || n == b[i].n, "block of %zu bytes released as %zu bytes", b[i].n, n);
                guard(i);
                b[i].live = false;
                return true;
            }
        }
        for (int i = 0; i < SLOTS; ++i) {
            char *c = static_cast<char*>(q);
            MC_CHECK(!(c >= arena[i] && c < arena[i] + arena_size), "address %ld bytes into a block (or a dead block) was released", long(c - b[i].p));
        }
        return false;
    }
    void guard(int i)
    {
        for (int k = 1; k <= GUARD; ++k) {
            MC_CHECK((unsigned char)b[i].p[-k] == 0xEE, "byte %d before the obtained block was overwritten", k);
            MC_CHECK((unsigned char)b[i].p[b[i].n + k - 1] == 0xEE, "byte %d behind the obtained block was overwritten", k);
        }
    }
    int find(const char *p, std::size_t n)
    {
        for (int i = 0; i < SLOTS; ++i) {
            if (b[i].live && p >= b[i].p && p + n <= b[i].p + b[i].n) return i;
        }
        return -1;
    }
    int live() { int r = 0; for (auto& x : b) r += x.live; return r; }
};
static Heap *heap;

void *operator new(std::size_t n)
{
    if (heap && heap->on) return heap->get(n);
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void release(void *p, std::size_t n, bool sized)
{
    if (!p) return;
    if (heap && heap->on) {
        MC_CHECK(heap->put(p, n, sized), "an address that was never obtained was released");
        return;
    }
    std::free(p);
}
void operator delete(void *p) noexcept { release(p, 0, false); }
void operator delete(void *p, std::size_t n) noexcept { release(p, n, true); }

struct On { On() { heap->on = true; } ~On() { heap->on = false; } };

struct S24 { double a, b, c; };
struct S3 { char c[3]; };

template<typename T, std::size_t ALIGN>
void single(const char *label, std::size_t n, std::size_t residue)
{
    if (!mc::begin(label, {long(sizeof(T)), long(ALIGN), long(n), long(residue)})) return;
    heap->modulus = ALIGN > 16384 ? ALIGN : 16384;
    heap->residue = residue;
    typedef LibFlatArray::aligned_allocator<T, ALIGN> A;
    A alloc;
    T *p;
    { On on; p = alloc.allocate(n); }
    mc::step();
    MC_CHECK(p != 0, "allocation returned null");
    MC_CHECK(reinterpret_cast<std::size_t>(p) % ALIGN == 0, "allocation is not aligned to %zu: %p", ALIGN, (void*)p);
    MC_CHECK(heap->live() == 1, "allocation obtained %d blocks", heap->live());
    std::size_t bytes = n * sizeof(T);
    char *c = reinterpret_cast<char*>(p);
    int k = heap->find(c, bytes);
    MC_CHECK(k >= 0, "allocated space of %zu bytes at offset %ld exceeds the obtained block of %zu bytes", bytes, long(c - heap->b[0].p), heap->b[0].n);
    heap->guard(k);
    std::memset(c, 0x3C, bytes); // the user owns all of it
    heap->guard(k);
    mc::state(mc::mix(ALIGN, mc::mix(residue, mc::mix(bytes, c - heap->b[k].p))));
    { On on; A().deallocate(p, n); }
    mc::step();
    MC_CHECK(heap->live() == 0, "block was not released");
}

template<typename T, std::size_t ALIGN>
void residues()
{
    std::size_t step = 1;
    std::size_t top = ALIGN < 16 ? 16 : ALIGN;
    int k = 0;
    for (std::size_t n : {std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(7), std::size_t(64), ALIGN, ALIGN + 1}) {
        for (std::size_t r = 0; r < top; r += step) {
            if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
            single<T, ALIGN>("residue", n, r);
        }
    }
    mc::count_label("type_alignment_combinations");
}

// alignments beyond a page: residues next to all powers of two
template<typename T, std::size_t ALIGN>
void large_alignment()
{
    int k = 0;
    std::set<std::size_t> rs;
    for (std::size_t b = 1; b <= ALIGN; b *= 2) {
        for (long d : {-9, -8, -1, 0, 1, 8}) {
            rs.insert((b + d) % ALIGN);
            rs.insert((ALIGN - b + d) % ALIGN);
        }
    }
    for (std::size_t n : {std::size_t(0), std::size_t(1), std::size_t(7), ALIGN / sizeof(T), ALIGN / sizeof(T) + 1}) {
        for (std::size_t r : rs) {
            if (!mc::g().replay && (k++ % mc::g().shards) != mc::g().shard) continue;
            single<T, ALIGN>("large_alignment", n, r);
        }
    }
    mc::count_label("type_alignment_combinations");
}

template<typename T, std::size_t ALIGN>
void oversized()
{
    // counts whose byte size cannot be represented have to be refused
    std::size_t top = ~std::size_t(0);
    std::size_t ns[] = {top, top / 2, top / sizeof(T), top / sizeof(T) + 1, top / sizeof(T) + 2, top - ALIGN, top - ALIGN - 7, (top - ALIGN) / sizeof(T), (top - ALIGN - 8) / sizeof(T) + 1, top / sizeof(T) - 1};
    for (std::size_t n : ns) {
        // (counts whose byte size is representable and small are granted, rightly)
        if (n <= (top / 2) / sizeof(T)) continue;
        if (!mc::begin("oversized", {long(sizeof(T)), long(ALIGN), long(n)})) continue;
        bool thrown = false;
        T *p = 0;
        try {
            On on;
            p = LibFlatArray::aligned_allocator<T, ALIGN>().allocate(n);
        } catch (const std::exception&) {
            thrown = true;
        }
        mc::step();
        MC_CHECK(thrown || p == 0, "allocation of %zu elements of %zu bytes was granted with a block of %zu bytes", n, sizeof(T), heap->b[0].n);
    }
}

// blocks whose size does not fit into 31, 32 or 33 bits (address space only: the
// pages in between are never touched)
template<typename T, std::size_t ALIGN>
void big()
{
    for (int bit = 20; bit < 37; ++bit) {
        std::size_t edge = std::size_t(1) << bit;
        std::size_t mids[] = {edge / sizeof(T), edge / sizeof(T) + 1, edge / sizeof(T) + 2, (edge - ALIGN) / sizeof(T), (edge - ALIGN - 8) / sizeof(T), (edge - ALIGN - 8) / sizeof(T) + 1, (edge - 8) / sizeof(T), edge * 3 / 2 / sizeof(T), edge / sizeof(T) - 1,
                              edge /* in elements */, edge - 1, edge + 1};
        for (std::size_t n : mids) {
            for (std::size_t residue : {std::size_t(0), std::size_t(8), ALIGN - 1, ALIGN / 2 + 1}) {
                if (!mc::begin("big", {long(sizeof(T)), long(ALIGN), long(n), long(residue)})) continue;
                heap->modulus = 16384;
                heap->residue = residue;
                heap->grant_big = true;
                heap->no_room = false;
                LibFlatArray::aligned_allocator<T, ALIGN> alloc;
                T *p = 0;
                bool thrown = false;
                try { On on; p = alloc.allocate(n); } catch (const std::bad_alloc&) { thrown = true; }
                heap->grant_big = false;
                mc::step();
                if (heap->no_room) { mc::count_label("no_address_space"); continue; }
                MC_CHECK(!thrown && p, "%zu elements of %zu bytes were refused", n, sizeof(T));
                std::size_t at = reinterpret_cast<std::size_t>(p), bytes = n * sizeof(T);
                MC_CHECK(at % ALIGN == 0, "allocation is not aligned to %zu: %p", ALIGN, (void*)p);
                int k = heap->find((char*)p, bytes);
                char *q = k >= 0 ? heap->b[k].p : heap->big.p;
                std::size_t qn = k >= 0 ? heap->b[k].n : heap->big.n;
                MC_CHECK(k >= 0 || (heap->big.live && (char*)p >= q && (char*)p + bytes <= q + qn), "%zu elements of %zu bytes were granted with a block of %zu bytes", n, sizeof(T), heap->big.live ? qn : heap->b[0].n);
                MC_CHECK(heap->live() == (heap->big.live ? 0 : 1), "several blocks were obtained");
                p[0] = T(); p[n - 1] = T(); p[n / 2] = T();
                mc::state(mc::mix(ALIGN, mc::mix(residue, mc::mix(bytes, (char*)p - q))));
                { On on; alloc.deallocate(p, n); }
                mc::step();
                MC_CHECK(heap->live() == 0 && !heap->big.live, "block was not released");
            }
        }
    }
}

// interleaved allocations and releases of different allocators
struct Inter
{
    static int nops(long) { return 3 * 4 + 3; }
    static std::string opname(long, int i)
    {
        char buf[64];
        if (i < 12) std::snprintf(buf, sizeof(buf), "p%d=allocate(%d)", i / 4, i % 4);
        else std::snprintf(buf, sizeof(buf), "deallocate(p%d)", i - 12);
        return buf;
    }
    char *p[3];
    std::size_t n[3];
    explicit Inter(long cfg) : p(), n()
    {
        heap->modulus = 4096;
        heap->residue = cfg;
    }
    void check()
    {
        for (int i = 0; i < 3; ++i) {
            if (!p[i]) continue;
            int k = heap->find(p[i], n[i]);
            MC_CHECK(k >= 0, "allocation %d is not inside of a live block any more", i);
            heap->guard(k);
            for (std::size_t q = 0; q < n[i]; ++q) MC_CHECK(p[i][q] == char(0x41 + i), "allocation %d was overwritten at byte %zu", i, q);
        }
    }
    bool apply(int op)
    {
        int i = op < 12 ? op / 4 : op - 12;
        if ((op < 12) == (p[i] != 0)) return false;
        if (op < 12) {
            static const std::size_t counts[] = {0, 1, 9, 64};
            std::size_t c = counts[op % 4];
            On on;
            if (i == 0) { p[i] = LibFlatArray::aligned_allocator<char, 64>().allocate(c); n[i] = c; }
            if (i == 1) { p[i] = (char*)LibFlatArray::aligned_allocator<double, 8>().allocate(c); n[i] = c * 8; }
            if (i == 2) { p[i] = (char*)LibFlatArray::aligned_allocator<int, 4096>().allocate(c); n[i] = c * 4; }
            static const std::size_t al[] = {64, 8, 4096};
            MC_CHECK(reinterpret_cast<std::size_t>(p[i]) % al[i] == 0, "allocation %d is not aligned", i);
            std::memset(p[i], 0x41 + i, n[i]);
        } else {
            free_one(i);
        }
        check();
        return true;
    }
    void free_one(int i)
    {
        On on;
        if (i == 0) LibFlatArray::aligned_allocator<char, 64>().deallocate(p[i], n[i]);
        if (i == 1) LibFlatArray::aligned_allocator<double, 8>().deallocate((double*)p[i], n[i] / 8);
        if (i == 2) LibFlatArray::aligned_allocator<int, 4096>().deallocate((int*)p[i], n[i] / 4);
        p[i] = 0;
    }
    uint64_t hash() { uint64_t h = 3; for (int i = 0; i < 3; ++i) h = mc::mix(h, p[i] ? n[i] + 1 : 0); return h; }
    void done()
    {
        for (int i = 0; i < 3; ++i) if (p[i]) free_one(i);
        MC_CHECK(heap->live() == 0, "%d blocks were never released", heap->live());
    }
};

// standard containers on top of the allocator, which they rebind and convert
typedef LibFlatArray::aligned_allocator<double, 64> A64;
template<typename A> void put(std::vector<double, A>& c, double v) { c.push_back(v); }
template<typename A> void put(std::deque<double, A>& c, double v) { c.push_front(v); }
template<typename A> void put(std::list<double, A>& c, double v) { c.push_back(v); }
template<typename A> void take(std::vector<double, A>& c) { c.pop_back(); }
template<typename A> void take(std::deque<double, A>& c) { c.pop_front(); }
template<typename A> void take(std::list<double, A>& c) { c.pop_back(); }
static void check_place(const std::vector<double, A64>& c)
{
    if (c.empty()) return;
    MC_CHECK(reinterpret_cast<std::size_t>(&c[0]) % 64 == 0, "elements of a std::vector are not aligned");
    MC_CHECK(heap->find((const char*)&c[0], c.capacity() * sizeof(double)) >= 0, "elements of a std::vector are outside of its block");
}
template<typename C> void check_place(const C& c)
{
    for (auto& x : c) MC_CHECK(heap->find((const char*)&x, sizeof(x)) >= 0, "an element is outside of all blocks");
}

template<typename C>
struct Standard
{
    static int nops(long) { return 7; }
    static std::string opname(long, int i)
    {
        static const char *names[] = {"put 1 into a", "put 9 into a", "take from a", "b = a", "a = b (move)", "swap(a, b)", "clear and drop a"};
        return names[i];
    }
    C *a, *b;
    std::vector<double> ma, mb;
    double next;
    explicit Standard(long cfg) : next(1)
    {
        heap->modulus = 4096;
        heap->residue = cfg;
        a = (C*)std::malloc(sizeof(C)); b = (C*)std::malloc(sizeof(C));
        On on;
        // constructing from the allocator of another type converts it
        new (a) C(A64(LibFlatArray::aligned_allocator<int, 64>()));
        new (b) C(A64(LibFlatArray::aligned_allocator<char, 4096>()));
    }
    static bool front(const std::deque<double, A64>*) { return true; }
    template<typename X> static bool front(const X*) { return false; }
    bool apply(int op)
    {
        if (op == 2 && ma.empty()) return false;
        int n = op == 0 ? 1 : op == 1 ? 9 : 0;
        for (int i = 0; i < n; ++i) {
            { On on; put(*a, next); }
            ma.insert(front(a) ? ma.begin() : ma.end(), next);
            next += 1;
        }
        if (op == 2) { { On on; take(*a); } ma.erase(front(a) ? ma.begin() : ma.end() - 1); }
        if (op == 3) { { On on; *b = *a; } mb = ma; }
        if (op == 4) { { On on; *a = std::move(*b); b->clear(); } ma = mb; mb.clear(); }
        if (op == 5) { { On on; using std::swap; swap(*a, *b); } std::swap(ma, mb); }
        if (op == 6) { { On on; a->clear(); a->~C(); new (a) C(); } ma.clear(); }
        compare(*a, ma); compare(*b, mb);
        for (int i = 0; i < heap->SLOTS; ++i) if (heap->b[i].live) heap->guard(i);
        return true;
    }
    void compare(const C& c, const std::vector<double>& m)
    {
        mc::step();
        MC_CHECK(c.size() == m.size(), "%zu elements instead of %zu", c.size(), m.size());
        std::size_t i = 0;
        for (double x : c) { MC_CHECK(x == m[i], "element %zu is %g instead of %g", i, x, m[i]); ++i; }
        check_place(c);
    }
    uint64_t hash() { uint64_t h = 5; for (double x : ma) h = mc::mix(h, uint64_t(x)); h = mc::mix(h, 99); for (double x : mb) h = mc::mix(h, uint64_t(x)); return h; }
    void done()
    {
        { On on; a->~C(); b->~C(); }
        std::free(a); std::free(b);
        MC_CHECK(heap->live() == 0, "%d blocks were never released", heap->live());
    }
};

template<std::size_t ALIGN>
void types()
{
    residues<char, ALIGN>();
    residues<short, ALIGN>();
    residues<S3, ALIGN>();
    residues<double, ALIGN>();
    residues<S24, ALIGN>();
    if (!mc::g().replay && mc::g().shard != __builtin_ctzl(ALIGN) % mc::g().shards) return;
    big<char, ALIGN>();
    big<S3, ALIGN>();
    big<double, ALIGN>();
    {
        oversized<char, ALIGN>();
        oversized<short, ALIGN>();
        oversized<double, ALIGN>();
        oversized<S24, ALIGN>();
    }
}

template<std::size_t ALIGN>
void large_alignments()
{
    large_alignment<char, ALIGN>();
    large_alignment<S3, ALIGN>();
    large_alignment<double, ALIGN>();
}

// (nothing to run if the allocators don't convert)
template<bool CONVERTS, typename DUMMY = void>
struct standard_containers { static void run() {} };

template<typename DUMMY>
struct standard_containers<true, DUMMY>
{
    typedef typename std::conditional<sizeof(DUMMY*) != 0, A64, void>::type A;
    typedef std::vector<double, A> vector;
    typedef std::deque<double, A> deque;
    typedef std::list<double, A> list;
    static void run()
    {
        for (long r : {0, 8, 57}) {
            mc::explore<Standard<vector> >("std_vector", r, mc::thorough() ? 6 : 4, false);
            mc::explore<Standard<deque> >("std_deque", r, mc::thorough() ? 6 : 4, false);
            mc::explore<Standard<list> >("std_list", r, 2, false);
        }
    }
};

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    heap = new Heap();
    types<1>(); types<2>(); types<4>(); types<8>(); types<16>(); types<32>(); types<64>(); types<128>();
    types<256>(); types<512>(); types<1024>(); types<2048>(); types<4096>();
    if (mc::thorough()) types<8192>();
    large_alignments<8192>(); large_alignments<16384>(); large_alignments<32768>(); large_alignments<65536>();
    large_alignments<1 << 17>(); large_alignments<1 << 18>(); large_alignments<1 << 19>(); large_alignments<1 << 20>();
    for (long r : {0, 1, 8, 16, 56, 63, 4080, 4095}) mc::explore<Inter>("interleaved", r, mc::thorough() ? 7 : 5, false);
    if (mc::begin("conversion")) {
        MC_CHECK((std::is_constructible<A64, LibFlatArray::aligned_allocator<int, 64> >::value && std::is_constructible<A64, LibFlatArray::aligned_allocator<char, 4096> >::value),
                 "allocators of one type can't be made from those of another type, as standard containers do");
    }
    standard_containers<std::is_constructible<A64, LibFlatArray::aligned_allocator<int, 64> >::value>::run();
    // rebinding keeps the alignment
    typedef LibFlatArray::aligned_allocator<char, 256>::rebind<double>::other R;
    if (mc::begin("rebind")) {
        heap->modulus = 4096; heap->residue = 24;
        On on;
        R r;
        double *p = r.allocate(5);
        MC_CHECK(reinterpret_cast<std::size_t>(p) % 256 == 0, "rebound allocator loses the alignment");
        r.deallocate(p, 5);
        r.deallocate(0, 0);
        MC_CHECK(heap->live() == 0, "rebound allocator leaks");
        MC_CHECK(r == R() && !(r != R()), "allocators of the same type have to be interchangeable");
    }
    mc::sample("aligned_allocator<double,64>.allocate(7) on a block at residue 57");
    return mc::finish();
}
