// Shared by the short_vec harnesses (P14, P15, P16).
#ifndef VERIF_SV_HPP
#define VERIF_SV_HPP

#include "mc.hpp"
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <sstream>
#include <utility>
#include <libflatarray/short_vec.hpp>
#include <libflatarray/streaming_short_vec.hpp>

using namespace LibFlatArray;

// 0: instruction sets whose vectors have neither masks nor element access
#ifndef SV_FULL
#define SV_FULL 1
#endif

#if !SV_FULL
extern "C" void verif_misaligned(const char *what, unsigned n)
{
    mc::fail("%s with an address which is no multiple of %u", what, n);
    std::abort();
}
#endif

// The element type of this build
#ifndef CARGO_T
#define CARGO_T float
#endif
typedef CARGO_T T;

template<typename T_> struct bits_of;
template<> struct bits_of<float> { typedef uint32_t type; static const int code = 1; };
template<> struct bits_of<double> { typedef uint64_t type; static const int code = 2; };
template<> struct bits_of<int> { typedef uint32_t type; static const int code = 3; };
typedef bits_of<T>::type Bits;

inline Bits bits(T x) { Bits b; std::memcpy(&b, &x, sizeof(b)); return b; }
inline T from_bits(Bits b) { T x; std::memcpy(&x, &b, sizeof(b)); return x; }
inline bool is_nan(float x) { return x != x; }
inline bool is_nan(double x) { return x != x; }
inline bool is_nan(int) { return false; }

// equal as scalar results: bit for bit, but one NaN is as good as another
inline bool same(T x, T y) { return bits(x) == bits(y) || (is_nan(x) && is_nan(y)); }

// values crossing the compiler without being folded or contracted
inline T opaque(T x) { asm volatile("" : "+m"(x)); return x; }

inline std::string show(T x)
{
    std::ostringstream s;
    s.precision(17);
    s << x << "(0x" << std::hex << uint64_t(bits(x)) << ")";
    return s.str();
}

template<int I> struct int_ { static const int value = I; };

#endif
