// The device behind cuda_emu.hpp: memory, transfers, launches, and the checks on
// every single access of the instrumented code.
#include "cuda/cuda_emu.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <vector>

uint3 threadIdx, blockIdx;
dim3 blockDim, gridDim;

extern "C" char __executable_start, _end;

namespace cuda_emu {

void (*report)(const char *text) = 0;
long fail_malloc = 0, mallocs = 0;
uint64_t launches = 0, device_threads = 0, accesses = 0, conflicting = 0;

namespace {

enum Mode { OFF, HOST, KERNEL };
volatile Mode mode = OFF; // volatile: the wrapped memcpy looks at it, too

const std::size_t ARENA = std::size_t(1) << 28;
const std::size_t GAP = 256;
char *arena = 0;
std::size_t top = 0;

struct Block { char *p; std::size_t n; bool live; };
std::vector<Block> *blocks = 0, *dead = 0; // dead: the addresses aren't used again before reset()
cudaError_t last_error = cudaSuccess;

// per byte of the arena: who wrote / read it in the current launch
struct Shadow { uint64_t wr, rd; };
Shadow *shadow = 0;
const uint64_t MANY = 0xffffffff;
uint64_t stamp = 0;

char *frame_top = 0;
uint64_t n_threads = 0;
uint64_t current = 0; // 1 + index of the running thread
int pass = 0;
bool conflict = false;
std::vector<char> *before = 0, *after = 0;

[[noreturn]] void bad(const char *what, const void *p, std::size_t n)
{
    Mode m = mode;
    mode = OFF;
    char text[400];
    const Block *near = 0;
    for (auto list : {dead, blocks}) if (list) for (const Block& b : *list) if ((char*)p >= b.p - GAP && (char*)p < b.p + b.n + GAP) near = &b;
    int k = std::snprintf(text, sizeof(text), "%s (%zu bytes)", what, n);
    if (near) k += std::snprintf(text + k, sizeof(text) - k, ", at byte %ld of %s device block of %zu bytes", long((char*)p - near->p), near->live ? "a" : "a released", near->n);
    if (m == KERNEL) std::snprintf(text + k, sizeof(text) - k, ", in thread (%u,%u,%u) of block (%u,%u,%u)", threadIdx.x, threadIdx.y, threadIdx.z, blockIdx.x, blockIdx.y, blockIdx.z);
    report(text);
    std::abort();
}

bool on_device(const void *p) { return arena && (const char*)p >= arena && (const char*)p < arena + ARENA; }

bool inside_block(const void *p, std::size_t n)
{
    for (std::size_t i = blocks->size(); i-- > 0;) {
        const Block& b = (*blocks)[i];
        if (b.live && (const char*)p >= b.p && (const char*)p + n <= b.p + b.n) return true;
    }
    return false;
}

inline void access(const void *p, std::size_t n, bool write)
{
    if (mode == OFF || n == 0) return;
    if (mode == HOST) {
        if (on_device(p) || on_device((const char*)p + n - 1)) bad(write ? "host code writes to device memory" : "host code reads device memory", p, n);
        return;
    }
    ++accesses;
    if (!on_device(p)) {
        // the thread's own stack and the launch's arguments
        char here;
        if ((const char*)p >= &here - (1 << 20) && (const char*)p < frame_top) return;
        bool image = (const char*)p >= &__executable_start && (const char*)p < &_end;
        if (image && !write) return;
        bad(write ? "kernel writes to host memory" : "kernel reads host memory", p, n);
    }
    if (!inside_block(p, n)) bad(write ? "kernel writes outside of live device memory" : "kernel reads outside of live device memory", p, n);
    uint64_t me = stamp << 32 | current;
    Shadow *s = shadow + ((const char*)p - arena);
    for (std::size_t i = 0; i < n; ++i) {
        bool w_other = (s[i].wr >> 32) == stamp && s[i].wr != me;
        bool r_other = (s[i].rd >> 32) == stamp && s[i].rd != me;
        if (w_other || (write && r_other)) conflict = true;
        if (write) s[i].wr = w_other ? (stamp << 32 | MANY) : me;
        else s[i].rd = r_other ? (stamp << 32 | MANY) : me;
    }
}

void snapshot(std::vector<char> *to)
{
    to->clear();
    for (const Block& b : *blocks) if (b.live) to->insert(to->end(), b.p, b.p + b.n);
}
void restore(const std::vector<char>& from)
{
    std::size_t k = 0;
    for (const Block& b : *blocks) if (b.live) { std::memcpy(b.p, from.data() + k, b.n); k += b.n; }
}

struct Quiet { Mode m; Quiet() : m(mode) { mode = OFF; } ~Quiet() { mode = m; } };

}

void reset()
{
    if (!arena) {
        arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow = (Shadow*)mmap(0, ARENA * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED || shadow == MAP_FAILED) { std::fprintf(stderr, "no memory\n"); _Exit(4); }
        blocks = new std::vector<Block>();
        dead = new std::vector<Block>();
        before = new std::vector<char>();
        after = new std::vector<char>();
    }
    mode = OFF;
    blocks->clear();
    dead->clear();
    top = 0;
    last_error = cudaSuccess;
    mallocs = 0;
    fail_malloc = 0;
    mode = HOST;
}

int live()
{
    int n = 0;
    for (const Block& b : *blocks) n += b.live;
    return n;
}

void unmonitored(void (*f)(int), int arg) { Quiet q; f(arg); }
bool in_device_memory(const void *p) { return on_device(p); }
void peek(void *to, const void *from, std::size_t n) { Quiet q; std::memcpy(to, from, n); }

bool begin_launch(dim3 grid, dim3 block, void *frame)
{
    uint64_t per_block = uint64_t(block.x) * block.y * block.z;
    uint64_t n = per_block * grid.x * grid.y * grid.z;
    bool ok = grid.x && grid.y && grid.z && per_block && per_block <= 1024 && block.x <= 1024 && block.y <= 1024 && block.z <= 64 && grid.x <= 0x7fffffffu && grid.y <= 65535 && grid.z <= 65535;
    if (!ok) {
        last_error = cudaErrorInvalidConfiguration;
        return false;
    }
    Quiet q;
    ++launches;
    device_threads += n;
    gridDim = grid;
    blockDim = block;
    n_threads = n;
    // everything below this launch's frame belongs to the kernel
    frame_top = (char*)frame;
    pass = 0;
    conflict = false;
    ++stamp;
    snapshot(before);
    q.m = KERNEL;
    return true;
}

uint64_t threads_of_launch() { return n_threads; }

void enter_thread(uint64_t k)
{
    uint64_t t = pass == 0 ? k : pass == 1 ? n_threads - 1 - k : (k * 2 < n_threads ? k * 2 : (k - (n_threads + 1) / 2) * 2 + 1);
    uint64_t per_block = uint64_t(blockDim.x) * blockDim.y * blockDim.z;
    uint64_t b = t / per_block, i = t % per_block;
    threadIdx.x = i % blockDim.x; threadIdx.y = i / blockDim.x % blockDim.y; threadIdx.z = i / blockDim.x / blockDim.y;
    blockIdx.x = b % gridDim.x; blockIdx.y = b / gridDim.x % gridDim.y; blockIdx.z = b / gridDim.x / gridDim.y;
    current = 1 + t;
}

bool end_pass()
{
    mode = OFF;
    if (!conflict) { mode = HOST; return false; }
    // threads of this launch are not independent: the result has to be the same in other orders
    std::vector<char> now;
    snapshot(&now);
    if (pass == 0) {
        ++conflicting;
        after->swap(now);
    } else if (now != *after) {
        report("the result of a kernel depends on the order of its threads");
    }
    if (pass == 2) { mode = HOST; return false; }
    restore(*before);
    ++pass;
    mode = KERNEL;
    return true;
}

}

using namespace cuda_emu;

cudaError_t cuda_malloc(void **p, std::size_t n)
{
    Quiet q;
    ++mallocs;
    if ((fail_malloc && mallocs == fail_malloc) || n > ARENA / 4) return last_error = cudaErrorMemoryAllocation;
    if (n == 0) { *p = 0; return cudaSuccess; }
    std::size_t at = (top + GAP + 255) / 256 * 256;
    if (at + n + GAP > ARENA) { std::fprintf(stderr, "device memory exhausted\n"); _Exit(4); }
    top = at + n;
    Block b = {arena + at, n, true};
    std::memset(b.p, 0xA5, n);
    blocks->push_back(b);
    *p = b.p;
    return cudaSuccess;
}

cudaError_t cudaFree(void *p)
{
    if (!p) return cudaSuccess;
    Quiet q;
    for (std::size_t i = 0; i < blocks->size(); ++i) {
        Block b = (*blocks)[i];
        if (b.p != p) continue;
        b.live = false;
        std::memset(b.p, 0xDD, b.n);
        dead->push_back(b);
        blocks->erase(blocks->begin() + i);
        return cudaSuccess;
    }
    for (const Block& b : *dead) if (b.p == p) { q.m = HOST; bad("device memory is released twice", p, b.n); }
    bad("an address which is no device allocation is released", p, 0);
}

cudaError_t cudaMemcpy(void *to, const void *from, std::size_t n, cudaMemcpyKind kind)
{
    if (n == 0) return cudaSuccess;
    Quiet q;
    bool to_dev = kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice;
    bool from_dev = kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice;
    if (kind == cudaMemcpyDefault) { to_dev = on_device(to); from_dev = on_device(from); }
    if (to_dev && !inside_block(to, n)) bad("transfer writes outside of live device memory", to, n);
    if (from_dev && !inside_block(from, n)) bad("transfer reads outside of live device memory", from, n);
    if (!to_dev && on_device(to)) bad("transfer takes device memory for host memory (target)", to, n);
    if (!from_dev && on_device(from)) bad("transfer takes device memory for host memory (source)", from, n);
    std::memmove(to, from, n);
    return cudaSuccess;
}

cudaError_t cudaMemset(void *to, int value, std::size_t n)
{
    if (n == 0) return cudaSuccess;
    Quiet q;
    if (!inside_block(to, n)) bad("memset outside of live device memory", to, n);
    std::memset(to, value, n);
    return cudaSuccess;
}

cudaError_t cudaGetLastError() { cudaError_t e = last_error; last_error = cudaSuccess; return e; }
cudaError_t cudaPeekAtLastError() { return last_error; }
cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
cudaError_t cudaThreadSynchronize() { return cudaSuccess; }

// ------------------------------------------------- calls made by instrumentation
extern "C" {

#define ACCESS(N)                                                       \
    void __tsan_read##N(void *p) { access(p, N, false); }               \
    void __tsan_write##N(void *p) { access(p, N, true); }               \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false); }     \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true); }     \
    void __tsan_volatile_read##N(void *p) { access(p, N, false); }      \
    void __tsan_volatile_write##N(void *p) { access(p, N, true); }      \
    void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); } \
    void __tsan_read##N##_pc(void *p, void*) { access(p, N, false); }   \
    void __tsan_write##N##_pc(void *p, void*) { access(p, N, true); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)

void __tsan_read_range(void *p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, std::size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void*) { access(p, sizeof(void*), true); }
void __tsan_vptr_read(void **p) { access(p, sizeof(void*), false); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}

// atomics: host statics mostly; what they touch is checked, not their order
#define ATOMIC(BITS, T)                                                 \
    T __tsan_atomic##BITS##_load(const volatile T *p, int) { access((const void*)p, sizeof(T), false); return *p; } \
    void __tsan_atomic##BITS##_store(volatile T *p, T v, int) { access((const void*)p, sizeof(T), false); *p = v; } \
    T __tsan_atomic##BITS##_exchange(volatile T *p, T v, int) { access((const void*)p, sizeof(T), false); T o = *p; *p = v; return o; } \
    T __tsan_atomic##BITS##_fetch_add(volatile T *p, T v, int) { access((const void*)p, sizeof(T), false); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T *p, T v, int) { access((const void*)p, sizeof(T), false); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##BITS##_fetch_and(volatile T *p, T v, int) { access((const void*)p, sizeof(T), false); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##BITS##_fetch_or(volatile T *p, T v, int) { access((const void*)p, sizeof(T), false); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T *p, T v, int) { access((const void*)p, sizeof(T), false); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((const void*)p, sizeof(T), false); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, f); }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void*, const void*, std::size_t);
void *__real_memmove(void*, const void*, std::size_t);
void *__real_memset(void*, int, std::size_t);
int __real_memcmp(const void*, const void*, std::size_t);
void *__wrap_memcpy(void *a, const void *b, std::size_t n) { access(b, n, false); access(a, n, true); return __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, std::size_t n) { access(b, n, false); access(a, n, true); return __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int c, std::size_t n) { access(a, n, true); return __real_memset(a, c, n); }
int __wrap_memcmp(const void *a, const void *b, std::size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }

}
