// A CUDA device for hosts without one: the runtime functions the library uses,
// kernel launches as loops over all threads, and a monitor. The code under test
// is compiled with -fsanitize=thread and linked against cuda_rt.cpp, so every
// memory access of host code and kernels ends up there and is checked.
#ifndef VERIF_CUDA_EMU_HPP
#define VERIF_CUDA_EMU_HPP

#include <cstddef>
#include <cstdint>
#include <tuple>
#include <utility>

#define __global__
#define __host__
#define __device__
#define __constant__ static
#define __forceinline__ inline
#define __launch_bounds__(...)

struct uint3 { unsigned x, y, z; };
struct dim3
{
    unsigned x, y, z;
    dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {}
};

extern uint3 threadIdx, blockIdx;
extern dim3 blockDim, gridDim;

enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorInvalidDevicePointer = 17 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };

cudaError_t cuda_malloc(void **p, std::size_t n);
template<typename T> cudaError_t cudaMalloc(T **p, std::size_t n) { return cuda_malloc(reinterpret_cast<void**>(p), n); }
cudaError_t cudaFree(void *p);
cudaError_t cudaMemcpy(void *to, const void *from, std::size_t n, cudaMemcpyKind kind);
cudaError_t cudaMemset(void *to, int value, std::size_t n);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaThreadSynchronize();
typedef struct CUstream_st *cudaStream_t;
inline cudaError_t cudaMemcpyAsync(void *to, const void *from, std::size_t n, cudaMemcpyKind kind, cudaStream_t = 0) { return cudaMemcpy(to, from, n, kind); }
inline cudaError_t cudaMemsetAsync(void *to, int value, std::size_t n, cudaStream_t = 0) { return cudaMemset(to, value, n); }
inline cudaError_t cudaStreamSynchronize(cudaStream_t) { return cudaSuccess; }
inline const char *cudaGetErrorName(cudaError_t e) { return e ? "error" : "cudaSuccess"; }
inline const char *cudaGetErrorString(cudaError_t e) { return e ? "error" : "no error"; }

namespace cuda_emu {

// ------------------------------------------------------------------- monitor
extern void (*report)(const char *text); // must not return
void reset();                            // all device memory is gone
int live();                              // number of allocations
extern long fail_malloc;                 // 0: never, k: the k-th cudaMalloc from now on fails
extern long mallocs;                     // calls of cudaMalloc since reset()
extern uint64_t launches, device_threads, accesses, conflicting;

// reads device memory without going through the library
void peek(void *to, const void *from, std::size_t n);
bool in_device_memory(const void *p);
void unmonitored(void (*f)(int), int arg); // for signal handlers

// ------------------------------------------------------------------ launches
bool begin_launch(dim3 grid, dim3 block, void *frame);
// order: 0 ascending, 1 descending, 2 even ones first
uint64_t threads_of_launch();
void enter_thread(uint64_t k);
bool end_pass(); // true: once more, in another order

template<typename F, typename T, std::size_t... I>
__attribute__((noinline)) void run(const F& f, const T& t, std::index_sequence<I...>)
{
    do {
        uint64_t n = threads_of_launch();
        for (uint64_t k = 0; k < n; ++k) {
            enter_thread(k);
            f(std::get<I>(t)...);
        }
    } while (end_pass());
}

template<typename G, typename B, typename F, typename... A>
__attribute__((noinline)) void launch(G grid, B block, F f, A... args)
{
    // the arguments' copies live in this frame, not in the caller's
    std::tuple<A...> t(args...);
    if (!begin_launch(dim3(grid), dim3(block), __builtin_frame_address(0))) return;
    run(f, t, std::index_sequence_for<A...>());
}

}

#endif
