// P19: every use of the list macros over all supported lengths, as text.
#include "mc.hpp"
#include <libflatarray/preprocessor.hpp>

#define STR(...) STR_I(__VA_ARGS__)
#define STR_I(...) #__VA_ARGS__

struct Entry { const char *kind; int n, i; const char *got, *want; };
#include "table.inc"

static std::string squeeze(const char *s)
{
    std::string r;
    for (; *s; ++s) if (*s != ' ' && *s != '\n' && *s != '\t') r += *s;
    return r;
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    for (auto& e : ENTRIES) {
        if (!mc::begin(e.kind, {e.n, e.i})) continue;
        std::string got = squeeze(e.got), want = squeeze(e.want);
        MC_CHECK(got == want, "%s over a list of %d (argument %d) expands to %.200s, expected %.200s", e.kind, e.n, e.i, got.c_str(), want.c_str());
        mc::step();
        mc::count_label("nontrivial");
    }
    mc::sample("LIBFLATARRAY_ELEM(36, list of 50) -> 136");
    mc::sample("LIBFLATARRAY_IF_SHORTER(list of 17, 18, yes, no) -> yes");
    mc::sample("LIBFLATARRAY_FOR_EACH(M, arg, list of 50) -> M(0, arg, 100) ... M(49, arg, 149)");
    return mc::finish();
}
