// Cell types used by the container harnesses.
#ifndef VERIF_CELLS_HPP
#define VERIF_CELLS_HPP

#include "ledger.hpp"
#include <libflatarray/flat_array.hpp>
#include <cstring>
#include <type_traits>

// ---------------------------------------------------------------- plain data
// members of different sizes, array members, private members; TOKEN -> value is
// injective per member so that any mix-up of cells or members is visible
#define MIX_BODY(NAME, API_CLASS)                                       \
class NAME                                                              \
{                                                                       \
public:                                                                 \
    LIBFLATARRAY_ACCESS                                                 \
    API_CLASS                                                           \
    double d;                                                           \
    int i;                                                              \
    char c[3];                                                          \
    NAME() : d(0), i(0), c(), s(), f(0), u(0) {}                        \
    static NAME make(int t)                                             \
    {                                                                   \
        NAME x;                                                         \
        x.d = t * 1.25 + 0.5;                                           \
        x.i = t * 7 + 1;                                                \
        for (int k = 0; k < 3; ++k) x.c[k] = char(1 + ((t * 3 + k * 41) & 0x7e)); \
        for (int k = 0; k < 2; ++k) x.s[k] = short(t * 11 + k * 5003 + 3); \
        x.f = float(t) + 0.75f;                                         \
        x.u = (unsigned char)(t * 5 + 9);                               \
        return x;                                                       \
    }                                                                   \
    bool operator==(const NAME& o) const                                \
    {                                                                   \
        return d == o.d && i == o.i && c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2] && \
            s[0] == o.s[0] && s[1] == o.s[1] && f == o.f && u == o.u;   \
    }                                                                   \
    bool is(int t) const { return *this == make(t); }                   \
    bool is_default() const { return *this == NAME(); }                 \
    void poison() { *this = make(99); }                                 \
    std::string str() const                                             \
    {                                                                   \
        char buf[128];                                                  \
        std::snprintf(buf, sizeof(buf), "{d=%g i=%d c=%d,%d,%d s=%d,%d f=%g u=%d}", d, i, c[0], c[1], c[2], s[0], s[1], f, u); \
        return buf;                                                     \
    }                                                                   \
    short s[2];                                                         \
private:                                                                \
    float f;                                                            \
    unsigned char u;                                                    \
}

#define MIX_REGISTER(NAME)                                              \
LIBFLATARRAY_REGISTER_SOA(                                              \
    NAME,                                                               \
    ((double)(d))((int)(i))((char)(c)(3))((float)(f))((short)(s)(2))((unsigned char)(u)))

// array members of many arities (a container treats each one as that many
// members); every element of a token's cell differs
#define WIDE_BODY(NAME, API_CLASS)                                      \
class NAME                                                              \
{                                                                       \
public:                                                                 \
    LIBFLATARRAY_ACCESS                                                 \
    API_CLASS                                                           \
    NAME() { std::memset(static_cast<void*>(this), 0, sizeof(*this)); } \
    template<typename F> void elements(F f)                             \
    {                                                                   \
        int n = 0;                                                      \
        f(&d, 1, n); f(a4, 4, n); f(a5, 5, n); f(&i, 1, n); f(a6, 6, n); f(a7, 7, n); f(a8, 8, n); f(a9, 9, n); \
        f(a12, 12, n); f(a16, 16, n); f(a17, 17, n); f(a32, 32, n); f(a33, 33, n); f(a65, 65, n); f(&u, 1, n); f(a1, 1, n); \
    }                                                                   \
    static NAME make(int t)                                             \
    {                                                                   \
        NAME x;                                                         \
        x.elements([t](auto *p, int k, int& n) {                        \
            typedef typename std::remove_reference<decltype(*p)>::type T; \
            for (int e = 0; e < k; ++e, ++n) p[e] = T((t * 37 + n * 5 + 3) % 127 + (sizeof(T) > 1 ? (t + 1) * 128 % 16384 : 0)); \
        });                                                             \
        return x;                                                       \
    }                                                                   \
    bool operator==(const NAME& o) const                                \
    {                                                                   \
        bool r = true;                                                  \
        const char *from = reinterpret_cast<const char*>(this), *other = reinterpret_cast<const char*>(&o); \
        const_cast<NAME*>(this)->elements([&](auto *p, int k, int&) {   \
            r = r && !std::memcmp(p, other + (reinterpret_cast<const char*>(p) - from), k * sizeof(*p)); \
        });                                                             \
        return r;                                                       \
    }                                                                   \
    bool is(int t) const { return *this == make(t); }                   \
    bool is_default() const { return *this == NAME(); }                 \
    void poison() { *this = make(99); }                                 \
    std::string str() const                                             \
    {                                                                   \
        NAME x(*this);                                                  \
        std::string r = "{";                                            \
        x.elements([&r](auto *p, int k, int&) {                         \
            for (int e = 0; e < k; ++e) r += (e ? "," : " ") + std::to_string(double(p[e])).substr(0, 6); \
        });                                                             \
        return r.substr(0, 300) + "}";                                  \
    }                                                                   \
    double d;                                                           \
    int a4[4];                                                          \
    double a6[6];                                                       \
    int a8[8];                                                          \
    double a9[9];                                                       \
    float a12[12];                                                      \
    double a33[33];                                                     \
    short a5[5];                                                        \
    short a17[17];                                                      \
    short a65[65];                                                      \
private:                                                                \
    int i;                                                              \
    char a7[7];                                                         \
    char a16[16];                                                       \
    char a32[32];                                                       \
    unsigned char u;                                                    \
    char a1[1];                                                         \
}

#define WIDE_REGISTER(NAME)                                             \
LIBFLATARRAY_REGISTER_SOA(                                              \
    NAME,                                                               \
    ((double)(d))((int)(a4)(4))((short)(a5)(5))((int)(i))((double)(a6)(6))((char)(a7)(7))((int)(a8)(8))((double)(a9)(9)) \
    ((float)(a12)(12))((char)(a16)(16))((short)(a17)(17))((char)(a32)(32))((double)(a33)(33))((short)(a65)(65))((unsigned char)(u))((char)(a1)(1)))

enum { WIDE_AGG = 8 + 16 + 10 + 4 + 48 + 7 + 32 + 72 + 48 + 16 + 34 + 32 + 264 + 130 + 1 + 1 };

// -------------------------------------------------------------- tracked data
// a member type that owns its identity: construction, use and destruction are
// recorded per address; bitwise relocation is noticed through `self`
class Tracked
{
public:
    static ledger::Table& live() { static ledger::Table t; return t; }
    static bool alive(const Tracked *p)
    {
        ledger::Table& t = live();
        if (!t.cap) return false;
        std::size_t i = ledger::Table::h(const_cast<Tracked*>(p)) & (t.cap - 1);
        while (t.e[i].p) {
            if (t.e[i].p == p) return true;
            i = (i + 1) & (t.cap - 1);
        }
        return false;
    }

    Tracked() : self(this), v(0) { born(); }
    explicit Tracked(int v) : self(this), v(v) { born(); }
    Tracked(const Tracked& o) : self(this), v(o.get()) { born(); }
    Tracked& operator=(const Tracked& o)
    {
        MC_CHECK(alive(this), "assignment to a member object that is not alive");
        MC_CHECK(self == this, "member object was relocated bitwise (assignment target)");
        v = o.get();
        return *this;
    }
    ~Tracked()
    {
        std::size_t n;
        MC_CHECK(live().take(this, &n), "destruction of a member object that is not alive");
        MC_CHECK(self == this, "member object was relocated bitwise (destroyed)");
        self = 0;
    }
    int get() const
    {
        MC_CHECK(alive(this), "read of a member object that is not alive");
        MC_CHECK(self == this, "member object was relocated bitwise (read)");
        return v;
    }
    bool operator==(int x) const { return get() == x; }

private:
    void born()
    {
        MC_CHECK(!alive(this), "member object constructed on top of a live one");
        live().put(this, sizeof(Tracked));
    }
    Tracked *self;
    int v;
    int pad;
};

#define TRACKED_BODY(NAME, API_CLASS)                                   \
class NAME                                                              \
{                                                                       \
public:                                                                 \
    LIBFLATARRAY_ACCESS                                                 \
    API_CLASS                                                           \
    NAME() : n(0) {}                                                    \
    static NAME make(int t)                                             \
    {                                                                   \
        NAME x;                                                         \
        x.a = Tracked(t * 3 + 1);                                       \
        x.n = t * 5 + 2;                                                \
        x.b[0] = Tracked(t * 7 + 3);                                    \
        x.b[1] = Tracked(t * 11 + 4);                                   \
        return x;                                                       \
    }                                                                   \
    bool is(int t) const { return a == t * 3 + 1 && n == t * 5 + 2 && b[0] == t * 7 + 3 && b[1] == t * 11 + 4; } \
    bool is_default() const { return a == 0 && n == 0 && b[0] == 0 && b[1] == 0; } \
    void poison() { *this = make(99); }                                 \
    std::string str() const                                             \
    {                                                                   \
        char buf[128];                                                  \
        std::snprintf(buf, sizeof(buf), "{a=%d n=%d b=%d,%d}", a.get(), n, b[0].get(), b[1].get()); \
        return buf;                                                     \
    }                                                                   \
    Tracked a;                                                          \
    int n;                                                              \
    Tracked b[2];                                                       \
}

#define TRACKED_REGISTER(NAME)                                          \
LIBFLATARRAY_REGISTER_SOA(                                              \
    NAME,                                                               \
    ((Tracked)(a))((int)(n))((Tracked)(b)(2)))

// ------------------------------------------------------------- size lists
#define API_3D(...)                                                     \
    class API : public LibFlatArray::api_traits::has_custom_sizes       \
    { public: __VA_ARGS__ };

#endif
