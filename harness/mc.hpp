// Small explicit-state / stateless exploration kernel shared by all harnesses.
//
//  * every explored case is identified by a label and a list of integers, which
//    is what a replay takes (--only "label:1,2,3")
//  * fail() reports the current case and stops; crashes, sanitizer reports,
//    assertion failures and hangs of the code under test do the same
//  * finish() prints the measured coverage as one JSON line
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <signal.h>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

struct Globals
{
    bool thorough = false;
    bool replay = false;
    int shard = 0, shards = 1;
    std::string only_label;
    std::vector<long> only;

    const char *label = "(start)";
    long id[64];
    int n = 0;
    char note[512];
    // step trace in readable form, filled by explorers
    char steps[4096];
    int steps_len = 0;

    uint64_t evaluations = 0;   // cases executed
    uint64_t transitions = 0;   // operations executed and compared with the model
    uint64_t traces = 0;        // complete operation sequences executed on the code
    uint64_t pruned = 0;
    std::unordered_set<uint64_t> states;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, uint64_t> > extra;
    std::unordered_map<std::string, uint64_t> per_label;
    std::unordered_map<std::string, std::string> known; // known finding key -> text
};

inline Globals& g() { static Globals x; return x; }

inline std::string case_string()
{
    Globals& c = g();
    std::string s = c.label;
    s += ":";
    for (int i = 0; i < c.n; ++i) {
        char buf[32];
        std::snprintf(buf, sizeof(buf), "%s%ld", i ? "," : "", c.id[i]);
        s += buf;
    }
    return s;
}

inline void raw_report(const char *kind, const char *msg)
{
    // used from signal handlers as well: best effort formatting
    Globals& c = g();
    char buf[8192];
    int len = std::snprintf(buf, sizeof(buf), "\nMC-%s case=%s:", kind, c.label);
    for (int i = 0; i < c.n && len < 6000; ++i) {
        len += std::snprintf(buf + len, sizeof(buf) - len, "%s%ld", i ? "," : "", c.id[i]);
    }
    len += std::snprintf(buf + len, sizeof(buf) - len, " msg=%s", msg);
    if (c.note[0]) {
        len += std::snprintf(buf + len, sizeof(buf) - len, " [%s]", c.note);
    }
    if (c.steps_len) {
        len += std::snprintf(buf + len, sizeof(buf) - len, " steps={%.*s}", c.steps_len, c.steps);
    }
    if (len > int(sizeof(buf)) - 2) {
        len = sizeof(buf) - 2;
    }
    buf[len++] = '\n';
    ssize_t r = write(1, buf, len);
    (void)r;
}

[[noreturn]] inline void fail(const char *fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    fflush(stdout);
    raw_report("VIOLATION", buf);
    _exit(1);
}

#define MC_CHECK(COND, ...) do { if (!(COND)) { mc::fail(__VA_ARGS__); } } while (0)

inline void on_signal(int sig)
{
    char buf[64];
    std::snprintf(buf, sizeof(buf), "code under test died with signal %d", sig);
    raw_report("CRASH", buf);
    _exit(3);
}

inline void on_alarm(int)
{
    static uint64_t last_t = ~0ull, last_e = ~0ull;
    static int stuck = 0;
    Globals& c = g();
    if (c.transitions == last_t && c.evaluations == last_e) {
        if (++stuck >= 24) { // 24 * 5 s without any progress
            raw_report("CRASH", "no progress for 120 s: code under test hangs");
            _exit(3);
        }
    } else {
        stuck = 0;
    }
    last_t = c.transitions;
    last_e = c.evaluations;
}

inline void init(int argc, char **argv)
{
    Globals& c = g();
    c.note[0] = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") {
            c.thorough = true;
        } else if (a == "--quick") {
            c.thorough = false;
        } else if (a == "--shard" && i + 1 < argc) {
            std::sscanf(argv[++i], "%d/%d", &c.shard, &c.shards);
        } else if (a == "--only" && i + 1 < argc) {
            c.replay = true;
            std::string s = argv[++i];
            std::size_t colon = s.rfind(':');
            c.only_label = s.substr(0, colon);
            std::string rest = colon == std::string::npos ? "" : s.substr(colon + 1);
            const char *p = rest.c_str();
            while (*p) {
                char *end;
                long v = std::strtol(p, &end, 10);
                if (end == p) {
                    break;
                }
                c.only.push_back(v);
                p = end;
                if (*p == ',') {
                    ++p;
                }
            }
        }
    }
    for (int s : {SIGABRT, SIGILL, SIGFPE, SIGSEGV, SIGBUS}) {
#if defined(__SANITIZE_ADDRESS__)
        if (s == SIGSEGV || s == SIGBUS || s == SIGFPE || s == SIGILL) {
            continue; // reported through __asan_on_error
        }
#endif
        signal(s, on_signal);
    }
    signal(SIGALRM, on_alarm);
    itimerval tv;
    tv.it_interval.tv_sec = tv.it_value.tv_sec = 5;
    tv.it_interval.tv_usec = tv.it_value.tv_usec = 0;
    setitimer(ITIMER_REAL, &tv, 0);
}

inline bool thorough() { return g().thorough; }

// Start a case; false: skip it (replay mode selects a single one).
inline bool begin(const char *label, std::initializer_list<long> ids = {})
{
    Globals& c = g();
    if (c.replay) {
        if (c.only_label != label) {
            return false;
        }
        if (c.only.size() != ids.size()) {
            return false;
        }
        std::size_t i = 0;
        for (long v : ids) {
            if (c.only[i++] != v) {
                return false;
            }
        }
    }
    c.label = label;
    c.n = 0;
    for (long v : ids) {
        c.id[c.n++] = v;
    }
    ++c.evaluations;
    return true;
}

inline void count_label(const char *label, uint64_t n = 1) { g().per_label[label] += n; }
inline void state(uint64_t h) { g().states.insert(h); }
inline void step(uint64_t n = 1) { g().transitions += n; }
inline void sample(const std::string& s) { if (g().samples.size() < 6) g().samples.push_back(s); }
inline void extra(const std::string& k, uint64_t v) { g().extra.push_back(std::make_pair(k, v)); }

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}

inline std::string esc(const std::string& s)
{
    std::string r;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
        }
        if ((unsigned char)ch >= 32) {
            r += ch;
        }
    }
    return r;
}

inline int finish()
{
    Globals& c = g();
    itimerval off;
    std::memset(&off, 0, sizeof(off));
    setitimer(ITIMER_REAL, &off, 0);
    if (c.replay && c.evaluations == 0) {
        std::printf("MC-NOCASE\n");
        return 4;
    }
    for (auto& k : c.known) {
        std::printf("MC-KNOWN %s %s\n", k.first.c_str(), k.second.c_str());
    }
    std::string j = "{";
    char buf[256];
    std::snprintf(buf, sizeof(buf), "\"evaluations\":%llu,\"transitions\":%llu,\"traces\":%llu,\"pruned\":%llu,\"states\":%llu",
                  (unsigned long long)c.evaluations, (unsigned long long)c.transitions,
                  (unsigned long long)c.traces, (unsigned long long)c.pruned,
                  (unsigned long long)c.states.size());
    j += buf;
    for (auto& e : c.extra) {
        std::snprintf(buf, sizeof(buf), ",\"x_%s\":%llu", e.first.c_str(), (unsigned long long)e.second);
        j += buf;
    }
    for (auto& e : c.per_label) {
        std::snprintf(buf, sizeof(buf), ",\"n_%s\":%llu", e.first.c_str(), (unsigned long long)e.second);
        j += buf;
    }
    j += ",\"samples\":[";
    for (std::size_t i = 0; i < c.samples.size(); ++i) {
        j += (i ? ",\"" : "\"") + esc(c.samples[i]) + "\"";
    }
    j += "]}";
    std::printf("MC-RESULT %s\n", j.c_str());
    fflush(stdout);
    if (const char *path = std::getenv("MC_STATES")) {
        // digests of the distinct states, merged over the shards by the driver
        if (FILE *f = std::fopen(path, "wb")) {
            for (uint64_t h : c.states) {
                std::fwrite(&h, sizeof(h), 1, f);
            }
            std::fclose(f);
        }
    }
    return 0;
}

// Dedupe key: observable state plus, where the system offers it, the kind of
// the last operation (so that hidden residue of an operation gets explored in
// every state that operation can lead to)
template<typename SYS>
auto last_of(SYS& sys, int) -> decltype(uint64_t(sys.last())) { return uint64_t(sys.last()); }
template<typename SYS>
uint64_t last_of(SYS&, long) { return 0; }

// Stateless exploration of all operation sequences of length <= depth.
//
// SYS needs:  static int nops(long cfg); static std::string opname(long cfg, int);
//             bool apply(int op)   -- executes and compares; false = op disabled
//             uint64_t hash()      -- digest of the observable joint state
//             void done()          -- end of history (destruction checks)
// and is constructed afresh for every sequence (the code under test is never
// cloned). With dedupe, a prefix whose joint observable state was already
// expanded with at least as many remaining steps is not expanded again.
template<typename SYS>
void explore(const char *label, long cfg, int depth, bool dedupe)
{
    Globals& c = g();
    int nops = SYS::nops(cfg);
    std::unordered_map<uint64_t, int> seen; // state -> remaining depth expanded
    std::vector<int> seq(depth, 0);
    int fixed = 0; // positions < fixed are a prefix already executed once

    auto run = [&](const std::vector<int>& s, int& stop) -> bool {
        c.label = label;
        c.n = 0;
        c.id[c.n++] = cfg;
        c.steps_len = 0;
        c.steps[0] = 0;
        ++c.evaluations;
        // a few complete traces per system in readable form, spread out
        bool want_text = c.samples.size() < 6 && (c.evaluations % 1009 == 7);
        SYS sys(cfg);
        bool complete = true;
        int k = 0;
        for (; k < int(s.size()); ++k) {
            if (c.n < 63) {
                c.id[c.n++] = s[k];
            }
            if (c.replay || want_text) {
                std::string nm = SYS::opname(cfg, s[k]);
                int room = int(sizeof(c.steps)) - c.steps_len - 4;
                if (int(nm.size()) < room) {
                    c.steps_len += std::snprintf(c.steps + c.steps_len, room, "%s%s", k ? "; " : "", nm.c_str());
                }
            }
            if (!sys.apply(s[k])) {
                complete = false;
                break;
            }
            ++c.transitions;
            uint64_t h = mix(sys.hash(), uint64_t(cfg));
            c.states.insert(h);
            if (dedupe && k >= fixed) {
                int remaining = int(s.size()) - k - 1;
                h = mix(h, last_of(sys, 0));
                auto it = seen.find(h);
                if (it != seen.end() && it->second >= remaining) {
                    complete = false;
                    break;
                }
                seen[h] = remaining;
            }
        }
        stop = k;
        sys.done();
        if (complete) {
            ++c.traces;
            if (want_text) {
                sample(std::string(label) + "/" + std::to_string(cfg) + ": " + c.steps);
            }
        } else {
            ++c.pruned;
        }
        return complete;
    };

    if (c.replay) {
        if (c.only_label != label || c.only.empty() || c.only[0] != cfg) {
            return;
        }
        std::vector<int> s(c.only.begin() + 1, c.only.end());
        int stop;
        bool d = dedupe;
        dedupe = false;
        run(s, stop);
        dedupe = d;
        return;
    }

    // shards split on the first operation
    for (int first = c.shard; first < nops; first += c.shards) {
        std::fill(seq.begin(), seq.end(), 0);
        seq[0] = first;
        fixed = 0;
        while (true) {
            int stop;
            bool complete = run(seq, stop);
            int pos = complete ? depth - 1 : stop;
            // advance odometer at pos
            while (pos > 0 && seq[pos] == nops - 1) {
                --pos;
            }
            if (pos == 0) {
                break;
            }
            ++seq[pos];
            for (int k = pos + 1; k < depth; ++k) {
                seq[k] = 0;
            }
            fixed = pos;
        }
    }
}

} // namespace mc

#if defined(__SANITIZE_ADDRESS__)
extern "C" inline __attribute__((used)) void __asan_on_error()
{
    mc::raw_report("CRASH", "AddressSanitizer error in code under test");
}
#endif

#endif
