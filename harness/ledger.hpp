// Allocation ledger with fault injection. Replaces the global operator
// new/delete of the harness program (one translation unit per program).
#ifndef VERIF_LEDGER_HPP
#define VERIF_LEDGER_HPP

#include "mc.hpp"
#include <cstddef>
#include <new>
#include <sys/mman.h>

namespace ledger {

// open addressing table address -> size, allocated with malloc only
struct Table
{
    struct Entry { void *p; std::size_t n; };
    Entry *e = 0;
    std::size_t cap = 0, used = 0, live = 0;

    static std::size_t h(void *p) { return (reinterpret_cast<std::size_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 20; }

    void grow()
    {
        std::size_t old = cap;
        Entry *o = e;
        std::size_t want = live * 4 < 1024 ? 1024 : live * 4;
        std::size_t ncap = 1024;
        while (ncap < want) ncap *= 2;
        cap = ncap;
        e = static_cast<Entry*>(std::calloc(cap, sizeof(Entry)));
        used = live = 0;
        for (std::size_t i = 0; i < old; ++i) {
            if (o[i].p && o[i].p != reinterpret_cast<void*>(1)) {
                put(o[i].p, o[i].n);
            }
        }
        std::free(o);
    }
    void put(void *p, std::size_t n)
    {
        if (used * 2 + 2 > cap) grow();
        std::size_t i = h(p) & (cap - 1);
        while (e[i].p && e[i].p != reinterpret_cast<void*>(1)) i = (i + 1) & (cap - 1);
        if (!e[i].p) ++used;
        e[i].p = p;
        e[i].n = n;
        ++live;
    }
    bool take(void *p, std::size_t *n)
    {
        if (!cap) return false;
        std::size_t i = h(p) & (cap - 1);
        while (e[i].p) {
            if (e[i].p == p) {
                *n = e[i].n;
                e[i].p = reinterpret_cast<void*>(1);
                --live;
                return true;
            }
            i = (i + 1) & (cap - 1);
        }
        return false;
    }
};

struct State
{
    bool track = false;      // record allocations (only while library code runs)
    long fail_at = -1;       // fail the n-th (0-based) tracked allocation from now
    long seen = 0;           // tracked allocations since arm()
    bool fired = false;
    Table live;
};

inline State& s() { static State x; return x; }

// RAII: code under test runs inside
struct Track
{
    bool old;
    explicit Track(bool on = true) : old(s().track) { s().track = on; }
    ~Track() { s().track = old; }
};

inline void arm(long n) { s().fail_at = n; s().seen = 0; s().fired = false; }
inline void disarm() { s().fail_at = -1; }

// address space without memory: containers with huge extents, of which only a
// few cells are used
const std::size_t BIG = std::size_t(1) << 30;
inline void *reserve(std::size_t n)
{
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    return p;
}
inline bool huge_possible()
{
    const std::size_t n = std::size_t(1) << 39;
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return false;
    munmap(p, n);
    return true;
}
inline Table& big() { static Table t; return t; }

inline void *alloc(std::size_t n)
{
    State& st = s();
    if (st.track) {
        if (st.fail_at >= 0 && st.seen == st.fail_at) {
            ++st.seen;
            st.fired = true;
            st.fail_at = -1;
            throw std::bad_alloc();
        }
        ++st.seen;
    }
    if (n >= BIG) {
        void *p = reserve(n);
        big().put(p, n);
        if (st.track) st.live.put(p, n);
        return p;
    }
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (st.track) {
        std::memset(p, 0xA5, n); // uninitialised storage is recognisable
        st.live.put(p, n);
    }
    return p;
}

inline void release(void *p, std::size_t n, bool sized)
{
    if (!p) return;
    State& st = s();
    std::size_t was;
    if (big().live && big().take(p, &was)) {
        std::size_t m;
        st.live.take(p, &m);
        if (sized && n != was) mc::fail("storage of %zu bytes released with size %zu", was, n);
        munmap(p, was);
        return;
    }
    if (st.live.take(p, &was)) {
        if (sized && n != was) {
            mc::fail("storage of %zu bytes released with size %zu", was, n);
        }
        std::memset(p, 0x5A, was);
    }
    std::free(p);
}

} // namespace ledger

void *operator new(std::size_t n) { return ledger::alloc(n); }
void *operator new[](std::size_t n) { return ledger::alloc(n); }
void operator delete(void *p) noexcept { ledger::release(p, 0, false); }
void operator delete[](void *p) noexcept { ledger::release(p, 0, false); }
void operator delete(void *p, std::size_t n) noexcept { ledger::release(p, n, true); }
void operator delete[](void *p, std::size_t n) noexcept { ledger::release(p, n, true); }

#endif
