#include "p17_rt.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace rt {

void (*report)(const char *text) = 0;

namespace {

// ------------------------------------------------------------------ threads
struct Worker
{
    pthread_t id;
    int go;             // futex: 1 = may run
    char *stack_lo, *stack_hi;
    bool done;
    const void *waits;  // blocked on this object
};

Worker worker[MAX_THREADS];
int main_go = 0;
int n_threads = 0;
int current = -1;               // running worker
bool in_run = false;
Scenario *scenario = 0;
__thread int self = -1;         // worker index of this OS thread, -1: main
__thread int inside = 0;        // executing this runtime, not the code under test

struct Inside
{
    Inside() { ++inside; }
    ~Inside() { --inside; }
};

void futex_wait(int *f)
{
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) {
        syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    }
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}

void futex_post(int *f)
{
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ------------------------------------------------------------- race detector
struct Byte
{
    uint32_t wr[MAX_THREADS], rd[MAX_THREADS], awr[MAX_THREADS], ard[MAX_THREADS];
};
struct Slot
{
    uintptr_t granule;
    uint64_t run;
    Byte byte[8];
};
const std::size_t SLOTS = 1 << 15;
Slot *table = 0;
uint64_t run_id = 0;
std::size_t used_slots = 0;

uint32_t vc[MAX_THREADS][MAX_THREADS];
struct Sync { const void *addr; uint32_t clock[MAX_THREADS]; int owner; int last; bool last_write; };
std::vector<Sync> *syncs = 0;

char text[2048];

[[noreturn]] void die(const char *fmt, const void *p, std::size_t n, int a, int b, const char *how)
{
    in_run = false;
    std::snprintf(text, sizeof(text), fmt, how, p, n, a, b);
    report(text);
    abort();
}

Slot& slot(uintptr_t granule)
{
    if (used_slots > SLOTS / 2) {
        std::fprintf(stderr, "p17: shadow table full\n");
        _exit(4);
    }
    std::size_t i = (granule * 0x9e3779b97f4a7c15ull) >> 40 & (SLOTS - 1);
    for (;;) {
        Slot& s = table[i];
        if (s.run != run_id) {
            s.run = run_id;
            s.granule = granule;
            std::memset(s.byte, 0, sizeof(s.byte));
            ++used_slots;
            return s;
        }
        if (s.granule == granule) return s;
        i = (i + 1) & (SLOTS - 1);
    }
}

Sync& sync_of(const void *addr)
{
    for (std::size_t i = 0; i < syncs->size(); ++i) {
        if ((*syncs)[i].addr == addr) return (*syncs)[i];
    }
    Sync s;
    s.addr = addr;
    std::memset(s.clock, 0, sizeof(s.clock));
    s.owner = -1;
    s.last = -1;
    s.last_write = false;
    syncs->push_back(s);
    return syncs->back();
}

uint64_t conflicts = 0, accesses = 0, points = 0;

void acquire(const void *addr)
{
    Sync& s = sync_of(addr);
    for (int i = 0; i < MAX_THREADS; ++i) if (s.clock[i] > vc[self][i]) vc[self][i] = s.clock[i];
    if (s.last >= 0 && s.last != self) ++conflicts;
    s.last = self;
}

void release(const void *addr)
{
    Sync& s = sync_of(addr);
    for (int i = 0; i < MAX_THREADS; ++i) if (vc[self][i] > s.clock[i]) s.clock[i] = vc[self][i];
    ++vc[self][self];
    if (s.last >= 0 && s.last != self) ++conflicts;
    s.last = self;
}

void touch(const char *p, std::size_t n, bool write, bool atomic)
{
    int t = self;
    for (std::size_t k = 0; k < n; ++k) {
        uintptr_t a = uintptr_t(p) + k;
        Byte& b = slot(a >> 3).byte[a & 7];
        for (int u = 0; u < n_threads; ++u) {
            if (u == t) continue;
            uint32_t seen = vc[t][u];
            const char *how = 0;
            if (b.wr[u] > seen) how = write ? "write/write" : "write/read";
            else if (!atomic && b.awr[u] > seen) how = "atomic write/access";
            else if (write && b.rd[u] > seen) how = "read/write";
            else if (write && !atomic && b.ard[u] > seen) how = "atomic read/write";
            if (how) die("data race (%s) at %p, %zu bytes, between threads %d and %d", p, n, u, t, how);
        }
        uint32_t c = vc[t][t];
        if (atomic) (write ? b.awr : b.ard)[t] = c;
        else (write ? b.wr : b.rd)[t] = c;
    }
}

// ---------------------------------------------------------------- scheduler
struct Node { int chosen, options; };
std::vector<Node> *path = 0;
std::size_t depth = 0;
int budget = 0;             // preemptions left
std::vector<int> *trace = 0; // (thread) per decision with a switch, for messages

int runnable(int *list)
{
    int n = 0;
    for (int i = 0; i < n_threads; ++i) {
        if (!worker[i].done && !worker[i].waits) list[n++] = i;
    }
    return n;
}

int decide(int options)
{
    if (options == 1) return 0;
    if (depth == path->size()) {
        Node n = {0, options};
        path->push_back(n);
    }
    Node& n = (*path)[depth++];
    if (n.chosen >= options) n.chosen = options - 1;
    return n.chosen;
}

void hand_over(int to)
{
    // called by the running worker or by the main thread
    int me = self;
    current = to;
    trace->push_back(to);
    futex_post(&worker[to].go);
    if (me >= 0) futex_wait(&worker[me].go);
}

// before each shared access: a possible preemption
void point()
{
    ++points;
    if (budget == 0) return;
    int list[MAX_THREADS];
    int n = runnable(list);
    if (n <= 1) return;
    int c = decide(n); // 0: go on
    if (c == 0) return;
    --budget;
    int k = 0;
    for (int i = 0; i < n; ++i) {
        if (list[i] == self) continue;
        if (++k == c) {
            trace->push_back(-int(points)); // preempted after that many points
            hand_over(list[i]);
            return;
        }
    }
}

void next_after_block_or_exit()
{
    int list[MAX_THREADS];
    int n = runnable(list);
    if (n == 0) {
        bool all = true;
        for (int i = 0; i < n_threads; ++i) all = all && worker[i].done;
        if (all) {
            current = -1;
            futex_post(&main_go);
            return;
        }
        in_run = false;
        report("deadlock: all remaining threads wait");
        abort();
    }
    int to = list[decide(n)];
    current = to;
    trace->push_back(to);
    futex_post(&worker[to].go);
}

void block_on(const void *object)
{
    worker[self].waits = object;
    next_after_block_or_exit();
    futex_wait(&worker[self].go);
}

void wake(const void *object)
{
    for (int i = 0; i < n_threads; ++i) {
        if (worker[i].waits == object) worker[i].waits = 0;
    }
}

void *worker_main(void *arg)
{
    int i = int(intptr_t(arg));
    pthread_attr_t attr;
    void *lo;
    size_t size;
    pthread_getattr_np(pthread_self(), &attr);
    pthread_attr_getstack(&attr, &lo, &size);
    pthread_attr_destroy(&attr);
    worker[i].stack_lo = static_cast<char*>(lo);
    worker[i].stack_hi = worker[i].stack_lo + size;
    self = i;
    for (;;) {
        futex_wait(&worker[i].go);
        scenario->thread(i);
        Inside in;
        worker[i].done = true;
        next_after_block_or_exit();
    }
    return 0;
}

inline bool active() { return self >= 0 && in_run && !inside; }

inline bool own_stack(const void *p)
{
    const char *c = static_cast<const char*>(p);
    return c >= worker[self].stack_lo && c < worker[self].stack_hi;
}

inline void access(const void *p, std::size_t n, bool write)
{
    if (!active() || n == 0 || own_stack(p)) return;
    Inside i;
    ++accesses;
    point();
    touch(static_cast<const char*>(p), n, write, false);
}

inline void atomic_access(const void *p, std::size_t n, bool rd, bool wr, int mo)
{
    if (!active()) return;
    if (own_stack(p)) return;
    Inside i;
    ++accesses;
    point();
    if (rd && mo != 0 && mo != 3) acquire(p);
    if (rd) touch(static_cast<const char*>(p), n, false, true);
    if (wr) touch(static_cast<const char*>(p), n, true, true);
    if (wr && mo >= 3) release(p);
    if (mo == 0 || !wr) {
        // relaxed accesses do not order anything, but their results depend on the schedule
        Sync& s = sync_of(p);
        if (s.last >= 0 && s.last != self && (wr || s.last_write)) ++conflicts;
        s.last = self;
        s.last_write = wr;
    }
}

// ------------------------------------------------------------------- memory
// memory given to a thread is never reused within one execution, so an address
// stands for one object
const std::size_t ARENA = 4 << 20;
char *arena[MAX_THREADS];
std::size_t arena_used[MAX_THREADS];
std::vector<void*> *deferred = 0;

void *allocate(std::size_t n)
{
    if (active()) {
        Inside i;
        std::size_t& used = arena_used[self];
        std::size_t need = (n + 31) / 16 * 16;
        if (used + need <= ARENA) {
            char *p = arena[self] + used;
            *reinterpret_cast<std::size_t*>(p) = n;
            used += need;
            return p + 16;
        }
        std::fprintf(stderr, "p17: arena full\n");
        _exit(4);
    }
    return std::malloc(n ? n : 1);
}

void deallocate(void *p)
{
    if (!p) return;
    bool record = active();
    Inside in;
    for (int i = 0; i < MAX_THREADS; ++i) {
        if (arena[i] && static_cast<char*>(p) >= arena[i] && static_cast<char*>(p) < arena[i] + ARENA) {
            if (record) touch(static_cast<char*>(p), *reinterpret_cast<std::size_t*>(static_cast<char*>(p) - 16), true, false);
            return;
        }
    }
    if (record) {
        touch(static_cast<char*>(p), malloc_usable_size(p), true, false);
        deferred->push_back(p);
        return;
    }
    std::free(p);
}

std::vector<char*> *guards = 0; // static initialisations done by workers in this execution

} // namespace

const char *schedule()
{
    static char buf[1024];
    int len = 0;
    buf[0] = 0;
    for (std::size_t i = 0; i < trace->size() && len < 900; ++i) {
        int x = (*trace)[i];
        if (x < 0) len += std::snprintf(buf + len, sizeof(buf) - len, "preempted before access %d; ", -x);
        else len += std::snprintf(buf + len, sizeof(buf) - len, "run thread %d; ", x);
    }
    return buf;
}

void explore(Scenario& s, int bound, uint64_t max_schedules, Stats *stats)
{
    if (!table) {
        table = static_cast<Slot*>(std::calloc(SLOTS, sizeof(Slot)));
        path = new std::vector<Node>;
        trace = new std::vector<int>;
        syncs = new std::vector<Sync>;
        deferred = new std::vector<void*>;
        guards = new std::vector<char*>;
        syncs->reserve(64);
        for (int i = 0; i < MAX_THREADS; ++i) {
            arena[i] = static_cast<char*>(std::malloc(ARENA));
            pthread_create(&worker[i].id, 0, worker_main, reinterpret_cast<void*>(intptr_t(i)));
        }
    }

    path->clear();
    uint64_t limit = max_schedules;
    for (uint64_t k = 0; ; ++k) {
        if (k >= limit) {
            stats->complete = false;
            break;
        }
        scenario = &s;
        n_threads = s.threads();
        s.setup();

        ++run_id;
        used_slots = 0;
        syncs->clear();
        trace->clear();
        guards->clear();
        conflicts = 0;
        accesses = 0;
        points = 0;
        depth = 0;
        budget = bound;
        for (int i = 0; i < MAX_THREADS; ++i) {
            worker[i].done = i >= n_threads;
            worker[i].waits = 0;
            arena_used[i] = 0;
            for (int j = 0; j < MAX_THREADS; ++j) vc[i][j] = (i == j);
        }
        in_run = true;
        int first = decide(n_threads);
        hand_over(first);
        futex_wait(&main_go);
        in_run = false;

        for (std::size_t i = 0; i < deferred->size(); ++i) std::free((*deferred)[i]);
        deferred->clear();
        for (std::size_t i = 0; i < guards->size(); ++i) *(*guards)[i] = 0;
        ++stats->schedules;
        stats->accesses += accesses;
        stats->conflicts += conflicts;
        if (k == 0) stats->points = points;

        s.check();
        s.teardown();

        // next schedule
        path->resize(depth);
        while (!path->empty() && path->back().chosen + 1 >= path->back().options) path->pop_back();
        if (path->empty()) break;
        ++path->back().chosen;
    }
}

} // namespace rt

// ------------------------------------------------- what the compiler calls
using namespace rt;

void *operator new(std::size_t n) { return allocate(n); }
void *operator new[](std::size_t n) { return allocate(n); }
void *operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void *operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void *p) noexcept { deallocate(p); }
void operator delete[](void *p) noexcept { deallocate(p); }
void operator delete(void *p, std::size_t) noexcept { deallocate(p); }
void operator delete[](void *p, std::size_t) noexcept { deallocate(p); }

extern "C" {

#define RW(N)                                                           \
    void __tsan_read##N(void *p) { access(p, N, false); }               \
    void __tsan_write##N(void *p) { access(p, N, true); }               \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false); }     \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true); }     \
    void __tsan_volatile_read##N(void *p) { access(p, N, false); }      \
    void __tsan_volatile_write##N(void *p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read_range(void *p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, std::size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, sizeof(void*), true); }
void __tsan_vptr_read(void **p) { access(p, sizeof(void*), false); }

#define ATOMICS(BITS, T)                                                \
    T __tsan_atomic##BITS##_load(const volatile T *p, int mo) { atomic_access((const void*)p, sizeof(T), true, false, mo); return *p; } \
    void __tsan_atomic##BITS##_store(volatile T *p, T v, int mo) { atomic_access((const void*)p, sizeof(T), false, true, mo); *p = v; } \
    T __tsan_atomic##BITS##_exchange(volatile T *p, T v, int mo) { atomic_access((const void*)p, sizeof(T), true, true, mo); T o = *p; *p = v; return o; } \
    T __tsan_atomic##BITS##_fetch_add(volatile T *p, T v, int mo) { atomic_access((const void*)p, sizeof(T), true, true, mo); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T *p, T v, int mo) { atomic_access((const void*)p, sizeof(T), true, true, mo); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##BITS##_fetch_and(volatile T *p, T v, int mo) { atomic_access((const void*)p, sizeof(T), true, true, mo); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##BITS##_fetch_or(volatile T *p, T v, int mo) { atomic_access((const void*)p, sizeof(T), true, true, mo); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T *p, T v, int mo) { atomic_access((const void*)p, sizeof(T), true, true, mo); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { atomic_access((const void*)p, sizeof(T), true, true, mo); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, f); }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// calls into libc
void *__real_memcpy(void *, const void *, std::size_t);
void *__real_memmove(void *, const void *, std::size_t);
void *__real_memset(void *, int, std::size_t);
int __real_memcmp(const void *, const void *, std::size_t);
void *__wrap_memcpy(void *a, const void *b, std::size_t n) { access(b, n, false); access(a, n, true); return __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, std::size_t n) { access(b, n, false); access(a, n, true); return __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int c, std::size_t n) { access(a, n, true); return __real_memset(a, c, n); }
int __wrap_memcmp(const void *a, const void *b, std::size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }

// static local variables: byte 0 = initialised, byte 1 = being initialised
int __cxa_guard_acquire(char *guard)
{
    if (!active()) {
        if (guard[0]) return 0;
        guard[1] = 1;
        return 1;
    }
    Inside in;
    point();
    for (;;) {
        if (guard[0]) {
            acquire(guard);
            return 0;
        }
        if (!guard[1]) {
            guard[1] = 1;
            return 1;
        }
        block_on(guard);
    }
}

void __cxa_guard_release(char *guard)
{
    guard[0] = 1;
    guard[1] = 0;
    if (active()) {
        Inside in;
        guards->push_back(guard);
        release(guard);
        wake(guard);
    }
}

void __cxa_guard_abort(char *guard)
{
    guard[1] = 0;
    if (active()) { Inside in; wake(guard); }
}

int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __real_pthread_mutex_trylock(pthread_mutex_t *m);

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!active()) return __real_pthread_mutex_lock(m);
    Inside in;
    point();
    while (sync_of(m).owner >= 0) block_on(m);
    sync_of(m).owner = self;
    acquire(m);
    return 0;
}

int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!active()) return __real_pthread_mutex_trylock(m);
    Inside in;
    point();
    if (sync_of(m).owner >= 0) {
        ++conflicts;
        return EBUSY;
    }
    sync_of(m).owner = self;
    acquire(m);
    return 0;
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!active()) return __real_pthread_mutex_unlock(m);
    Inside in;
    sync_of(m).owner = -1;
    release(m);
    wake(m);
    point();
    return 0;
}

}
