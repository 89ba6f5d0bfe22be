// P13: loop peeling. All (start, end) pairs for all widths, element types,
// counter types and both forms, against the definition of the range.
#include "mc.hpp"
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/short_vec.hpp>
#include <libflatarray/streaming_short_vec.hpp>

using namespace LibFlatArray;

struct Step { long long i; int width; };
static std::vector<Step> steps;
static const std::size_t LIMIT = 4096;

template<typename SHORT_VEC, typename COUNTER>
void body(COUNTER& i, COUNTER end, int)
{
    for (; i < end; i += SHORT_VEC::ARITY) {
        steps.push_back(Step{(long long)i, int(SHORT_VEC::ARITY)});
        MC_CHECK(steps.size() < LIMIT, "the peeled loop does not end");
    }
}

// the macro needs a function template with the vector type as first argument
template<typename V> void body_int(int& i, int end, int x) { body<V, int>(i, end, x); }
template<typename V> void body_long(long& i, long end, int x) { body<V, long>(i, end, x); }
template<typename V> void body_sizet(std::size_t& i, std::size_t end, int x) { body<V, std::size_t>(i, end, x); }
template<typename V> void body_unsigned(unsigned& i, unsigned end, int x) { body<V, unsigned>(i, end, x); }

template<typename VEC, typename COUNTER>
void verify(const char *form, long long start, long long end, COUNTER counter)
{
    mc::step();
    const int w = int(VEC::ARITY);
    long long at = start;
    for (auto& s : steps) {
        MC_CHECK(s.i == at, "%s: step at index %lld, expected %lld", form, s.i, at);
        MC_CHECK(s.width == w || s.width == 1, "%s: step of width %d", form, s.width);
        if (w > 1 && s.width == w) MC_CHECK((s.i % w + w) % w == 0, "%s: vector step starts at %lld, no multiple of %d", form, s.i, w);
        at += s.width;
        MC_CHECK(at <= end, "%s: step at %lld of width %d passes the end %lld", form, s.i, s.width, end);
        // whole aligned chunks are not to be peeled
        if (w > 1 && s.width == 1 && (s.i % w + w) % w == 0) MC_CHECK(s.i + w > end, "%s: chunk at %lld is presented one by one", form, s.i);
    }
    if (end >= start) {
        MC_CHECK(at == end, "%s: indices from %lld to %lld were not presented", form, at, end);
        MC_CHECK((long long)counter == end, "%s: counter ends at %lld, expected %lld", form, (long long)counter, end);
    } else {
        MC_CHECK((long long)counter == start, "%s: counter moved on an empty range", form);
    }
    uint64_t h = mc::mix(w, end - start);
    for (auto& s : steps) h = mc::mix(h, s.width);
    mc::state(h);
}

#define MACRO_FORM(VEC, COUNTER, FUN)                                   \
    if (mc::begin("macro_" #FUN, {id, start, end})) {                     \
        steps.clear();                                                  \
        COUNTER x = COUNTER(start);                                     \
        COUNTER stop = COUNTER(end);                                    \
        LIBFLATARRAY_LOOP_PEELER_TEMPLATE(VEC, COUNTER, x, stop, FUN, 7); \
        verify<VEC>("macro " #COUNTER, start, end, x);                  \
    }

template<typename VEC, typename COUNTER, typename END>
void fn(const char *label, long id, long long start, long long end)
{
    if (!mc::begin(label, {id, long(start), long(end)})) return;
    steps.clear();
    COUNTER x = COUNTER(start);
    loop_peeler<VEC>(&x, END(end), [](auto v, COUNTER *i, const END& stop) {
        typedef decltype(v) V;
        for (; *i < COUNTER(stop); *i += V::ARITY) {
            steps.push_back(Step{(long long)*i, int(V::ARITY)});
            MC_CHECK(steps.size() < LIMIT, "the peeled loop does not end");
        }
    });
    verify<VEC>(label, start, end, x);
}

template<typename VEC>
void all(long id)
{
    long n = mc::thorough() ? 300 : 100;
    const int w = int(VEC::ARITY);
    if (!mc::g().replay && int(id % mc::g().shards) != mc::g().shard) return;
    long long bases[] = {0, 1000000 / w * w, 2147483520LL / w * w, 8589934592LL, -n / 2, -2147483520LL / w * w - 20, -8589934592LL - 20};
    for (int bi = 0; bi < 7; ++bi) {
        long long b = bases[bi];
        long m = bi && bi != 4 ? 40 : n;
        for (long long start = b; start <= b + m; ++start) {
            for (long long end = b; end <= b + m; ++end) {
                bool natural = b >= 0;
                if (b < 2000000000LL && b > -8000000000LL) {
                    MACRO_FORM(VEC, int, body_int)
                    if (natural) MACRO_FORM(VEC, unsigned, body_unsigned)
                    fn<VEC, int, int>("function_int", id, start, end);
                    fn<VEC, int, long>("function_int_long", id, start, end);
                }
                MACRO_FORM(VEC, long, body_long)
                fn<VEC, long, long>("function_long", id, start, end);
                if (!natural) continue;
                MACRO_FORM(VEC, std::size_t, body_sizet)
                fn<VEC, std::size_t, std::size_t>("function_size_t", id, start, end);
                fn<VEC, std::size_t, long>("function_size_t_long", id, start, end);
            }
        }
    }
}

// expression arguments must be taken as a whole, also outside of templates
static void macro_plain()
{
    typedef short_vec<double, 4> V4;
    for (int start = 0; start < 30; ++start) {
        for (int end = 0; end < 30; ++end) {
            if (!mc::begin("macro_plain", {start, end})) continue;
            steps.clear();
            int x = start;
            int a = end + 5;
            LIBFLATARRAY_LOOP_PEELER(V4, int, x, a - 5, body_int, 7);
            verify<V4>("macro with expression as end", start, end, x);
#define EXPR(E) steps.clear(); x = start; { LIBFLATARRAY_LOOP_PEELER(V4, int, x, E, body_int, 7); } verify<V4>("macro with end " #E, start, end, x)
            int *p = &x;
            int cells[] = {3, start, 9};
            int low = end & 1, high = end & ~1, yes = end + 1;
            EXPR(yes ? end : 1);
            EXPR(yes ? end : 1000);
            EXPR(!yes ? 1000 : end);
            EXPR(high | low);
            EXPR(high ^ low);
            EXPR(end & 255);
            EXPR(high + low);
            EXPR(end << 0);
            EXPR((end << 2) >> 2);
            EXPR(end * 1);
            EXPR(end * 6 / 6);
            EXPR(end % 64);
            EXPR(-(-end));
            EXPR(-end * -1);
#undef EXPR
            steps.clear();
            *p = start;
            LIBFLATARRAY_LOOP_PEELER(V4, int, *p, 5 > 3 ? a - 5 : a, body_int, 7);
            verify<V4>("macro with a dereferenced counter", start, end, x);
            steps.clear();
            LIBFLATARRAY_LOOP_PEELER(V4, int, cells[1], end, body_int, 7);
            verify<V4>("macro with an array element as counter", start, end, cells[1]);
            MC_CHECK(cells[0] == 3 && cells[2] == 9, "neighbours of the counter changed");
            // the outcome of the branch decides: the macro has to be one statement
            steps.clear();
            x = start;
            if (yes)
                LIBFLATARRAY_LOOP_PEELER(V4, int, x, end, body_int, 7);
            verify<V4>("macro as the branch of an if", start, end, x);
            steps.clear();
            x = start;
            if (!yes)
                LIBFLATARRAY_LOOP_PEELER(V4, int, x, end, body_int, 7);
            MC_CHECK(steps.empty() && x == start, "macro runs although the branch is not taken");
        }
    }
}

template<typename CARGO>
void widths(long id)
{
    all<short_vec<CARGO, 1> >(id + 0);
    all<short_vec<CARGO, 2> >(id + 1);
    all<short_vec<CARGO, 4> >(id + 2);
    all<short_vec<CARGO, 8> >(id + 3);
    all<short_vec<CARGO, 16> >(id + 4);
    all<short_vec<CARGO, 32> >(id + 5);
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    widths<double>(0);
    widths<float>(8);
    widths<int>(16);
    all<streaming_short_vec<double, 2> >(24);
    all<streaming_short_vec<double, 8> >(25);
    all<streaming_short_vec<float, 4> >(26);
    all<streaming_short_vec<float, 16> >(27);
    all<streaming_short_vec<double, 32> >(28);
    if (mc::g().shard == 0) macro_plain();
    mc::sample("short_vec<double,4>, int counter, 5..6 -> one scalar step at 5");
    mc::sample("short_vec<float,8>, size_t counter, 3..29 -> scalar 3..7, vectors at 8,16, scalar 24..28");
    return mc::finish();
}
