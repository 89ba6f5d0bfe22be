// P21: the testbed runs the selected benchmarks and reports what they are.
// The surroundings (clock, host name, /proc/cpuinfo, output of
// likwid-topology, CUDA device) are under control of the harness; all
// contents of the two sources of the CPU's name up to a number of lines from
// an alphabet, and all combinations of names, dimensions and results are run.
#include "mc.hpp"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

struct cudaDeviceProp { char name[256]; std::size_t totalGlobalMem; int major, minor; };
static int gpu_current;
static const char *gpu_names[] = {"Tesla V100-SXM2-16GB", "G", "", "a device whose name is as long as the API permits...................................................................................................................................................................."};
static int cudaGetDevice(int *d) { *d = gpu_current; return 0; }
static int cudaGetDeviceProperties(cudaDeviceProp *p, int d)
{
    std::memset(p, 0x41, sizeof(*p));
    std::strcpy(p->name, gpu_names[d]);
    return 0;
}

#include <libflatarray/testbed/cpu_benchmark.hpp>
#include <libflatarray/testbed/gpu_benchmark.hpp>
#include <libflatarray/testbed/evaluate.hpp>

using namespace LibFlatArray;

// ---------------------------------------------------------------- surroundings
struct World
{
    bool active = false;
    long sec = 0, usec = 0;
    std::string host = "node";
    bool has_cpuinfo = false, has_likwid = false;
    std::string cpuinfo, likwid;
    std::map<void*, int> pipes; // open pipes
    int opened = 0, closed = 0;
};
static World& world() { static World w; return w; }

static int file_with(const std::string& s)
{
    int fd = int(syscall(SYS_memfd_create, "verif", 0));
    if (fd < 0) { std::printf("no memfd here\n"); _exit(2); }
    std::size_t at = 0;
    while (at < s.size()) {
        ssize_t n = write(fd, s.data() + at, s.size() - at);
        if (n <= 0) _exit(2);
        at += std::size_t(n);
    }
    lseek(fd, 0, SEEK_SET);
    return fd;
}

template<typename F> static F real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
static bool is_cpuinfo(const char *path) { return world().active && path && std::strcmp(path, "/proc/cpuinfo") == 0; }
static int cpuinfo_fd()
{
    if (!world().has_cpuinfo) { errno = ENOENT; return -1; }
    return file_with(world().cpuinfo);
}
static FILE *cpuinfo_file()
{
    int fd = cpuinfo_fd();
    return fd < 0 ? 0 : fdopen(fd, "r");
}

extern "C" {
FILE *fopen(const char *path, const char *mode)
{
    if (is_cpuinfo(path)) return cpuinfo_file();
    return real<FILE*(*)(const char*, const char*)>("fopen")(path, mode);
}
FILE *fopen64(const char *path, const char *mode)
{
    if (is_cpuinfo(path)) return cpuinfo_file();
    return real<FILE*(*)(const char*, const char*)>("fopen64")(path, mode);
}
int open(const char *path, int flags, ...)
{
    if (is_cpuinfo(path)) return cpuinfo_fd();
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open64(const char *path, int flags, ...)
{
    if (is_cpuinfo(path)) return cpuinfo_fd();
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
FILE *popen(const char *command, const char *)
{
    if (!world().has_likwid || !std::strstr(command, "likwid")) { errno = ENOMEM; return 0; }
    FILE *f = fdopen(file_with(world().likwid), "r");
    world().pipes[f] = 1;
    ++world().opened;
    return f;
}
int pclose(FILE *f)
{
    MC_CHECK(world().pipes.count(f), "pclose() of something that isn't an open pipe");
    world().pipes.erase(f);
    ++world().closed;
    fclose(f);
    return 0;
}
int gethostname(char *name, size_t n) noexcept
{
    const std::string& h = world().host;
    if (h.size() + 1 > n) { std::memcpy(name, h.data(), n); errno = ENAMETOOLONG; return -1; }
    std::memcpy(name, h.c_str(), h.size() + 1);
    return 0;
}
int gettimeofday(struct timeval *t, void *) noexcept
{
    t->tv_sec = world().sec;
    t->tv_usec = world().usec;
    return 0;
}
int clock_gettime(clockid_t, struct timespec *t) noexcept
{
    t->tv_sec = world().sec;
    t->tv_nsec = world().usec * 1000;
    return 0;
}
time_t time(time_t *t) noexcept
{
    if (t) *t = world().sec;
    return world().sec;
}
}

static int open_files()
{
    int n = 0;
    for (int fd = 3; fd < 64; ++fd) n += fcntl(fd, F_GETFD) >= 0;
    return n;
}

// ---------------------------------------------------------------- names
struct Probe : public cpu_benchmark
{
    std::string family() { return "f"; }
    std::string species() { return "s"; }
    double performance(std::vector<int>) { return 0; }
    std::string unit() { return "u"; }
    static double clock() { return time(); }
};

struct Line { const char *text; const char *label; const char *value; };

// lines of /proc/cpuinfo: what they name (0: nothing)
static const Line CPUINFO[] = {
    {"", 0, 0},
    {"processor\t: 0", 0, 0},
    {"model name\t: Some CPU @ 2.10GHz", "name", "Some CPU @ 2.10GHz"},
    {"model name\t: other", "name", "other"},
    {"model name", 0, 0},
    {"model name\t:", 0, 0},
    {"model name\t: ", 0, 0},
    {"cpu\t\t: POWER8 (raw), altivec supported", "name", "POWER8 (raw), altivec supported"},
    {"cpu\t: POWER9", "name", "POWER9"},
    {"cpu MHz\t\t: 2100.000", 0, 0},
    {"cpu family\t: 6", 0, 0},
    {"\t", 0, 0},
    {":", 0, 0},
    {" ", 0, 0},
    {"bugs\t\t:", 0, 0},
    {"vendor_id\t: GenuineIntel", 0, 0},
};
enum { N_CPUINFO = sizeof(CPUINFO) / sizeof(CPUINFO[0]) };

// lines of likwid-topology -O: fields they name
static const Line LIKWID[] = {
    {"", 0, 0},
    {"STRUCT,Info,1,,", 0, 0},
    {"CPU name:,Intel Xeon X5690 @ 3.47GHz,,", "name", "Intel Xeon X5690 @ 3.47GHz"},
    {"CPU type:,Core Westmere,,", "type", "Core Westmere"},
    {"CPU name:,X", "name", "X"},
    {"CPU type:,Y", "type", "Y"},
    {"CPU type:", 0, 0},
    {"CPU name:", 0, 0},
    {"CPU name:,,", 0, 0},
    {"CPU stepping:,2,,", 0, 0},
    {",,,", 0, 0},
    {"a long line without any of the fields looked for, which is followed by others,,,,,,,,,,,,,", 0, 0},
};
enum { N_LIKWID = sizeof(LIKWID) / sizeof(LIKWID[0]) };

// 0: source is missing
static std::string text_of(const std::vector<long>& ids, const Line *lines, bool newline)
{
    std::string r;
    for (std::size_t i = 0; i < ids.size(); ++i) {
        r += lines[ids[i]].text;
        if (newline || i + 1 < ids.size()) r += '\n';
    }
    return r;
}
static std::string cpuinfo_name(const std::vector<long>& ids)
{
    for (long i : ids) if (CPUINFO[i].label) return CPUINFO[i].value;
    return "";
}
// contradicting lines are left out
static bool likwid_name(const std::vector<long>& ids, std::string& name)
{
    std::string n, t;
    for (long i : ids) {
        const Line& l = LIKWID[i];
        if (!l.label) continue;
        std::string& s = std::string(l.label) == "name" ? n : t;
        if (!s.empty() && s != l.value) return false;
        s = l.value;
    }
    // a name followed by an empty one is no better defined
    bool has_empty = false;
    for (long i : ids) has_empty |= LIKWID[i].text == std::string("CPU name:,,");
    if (has_empty && !n.empty()) return false;
    name = n.empty() || t.empty() ? "" : t + ", " + n;
    return true;
}

static void query(const std::string& want, const char *what, Probe *probe = 0)
{
    World& w = world();
    w.active = true;
    int files = open_files();
    w.opened = w.closed = 0;
    std::string got;
    try {
        Probe fresh;
        got = (probe ? probe : &fresh)->device();
    } catch (const std::exception& e) {
        mc::fail("%s: the query for the CPU's name failed: %s", what, e.what());
    }
    w.active = false;
    MC_CHECK(got == want, "%s: the CPU is \"%.200s\", expected \"%.200s\"", what, got.c_str(), want.c_str());
    MC_CHECK(w.pipes.empty(), "%s: the pipe to likwid-topology was not closed", what);
    MC_CHECK(open_files() == files, "%s: %d files were left open", what, open_files() - files);
    mc::step();
    mc::state(std::hash<std::string>()(got));
    mc::count_label("nontrivial");
}

static void one_cpuinfo(const std::vector<long>& ids)
{
    World& w = world();
    for (int newline = 0; newline < 2; ++newline) for (int likwid = 0; likwid < 3; ++likwid) {
        w.has_cpuinfo = true;
        w.cpuinfo = text_of(ids, CPUINFO, newline);
        w.has_likwid = likwid > 0;
        w.likwid = likwid == 2 ? "CPU name:,only half,,\n" : "";
        std::string want = cpuinfo_name(ids);
        query(want.empty() ? "unknown CPU" : want, "/proc/cpuinfo");
    }
}
static void one_likwid(const std::vector<long>& ids)
{
    World& w = world();
    std::string name;
    if (!likwid_name(ids, name)) return;
    for (int newline = 0; newline < 2; ++newline) for (int cpuinfo = 0; cpuinfo < 2; ++cpuinfo) {
        w.has_cpuinfo = cpuinfo;
        w.cpuinfo = "processor\t: 0\nmodel name\t: fallback\n\n";
        w.has_likwid = true;
        w.likwid = text_of(ids, LIKWID, newline);
        query(!name.empty() ? name : cpuinfo ? "fallback" : "unknown CPU", "likwid-topology");
    }
}

// cases are dealt to the shards in turn
static bool begin(const char *label, std::initializer_list<long> ids)
{
    static long k = 0;
    if (!mc::g().replay && k++ % mc::g().shards != mc::g().shard) return false;
    return mc::begin(label, ids);
}

// all sequences over the alphabet up to the given length
template<typename F>
static void sequences(const char *label, long which, int alphabet, int depth, F f)
{
    for (int n = 0; n <= depth; ++n) {
        long all = 1;
        for (int i = 0; i < n; ++i) all *= alphabet;
        for (long code = 0; code < all; ++code) {
            if (!begin(label, {which, n, code})) continue;
            std::vector<long> ids;
            for (long c = code, i = 0; i < n; ++i, c /= alphabet) ids.push_back(c % alphabet);
            f(ids);
        }
    }
}

// several queries, by one object, while the surroundings change: every answer
// is about the present
static void query_histories(int depth)
{
    struct Surroundings { const char *cpuinfo, *likwid, *want; };
    static const Surroundings all[] = {
        {0, 0, "unknown CPU"},
        {"processor\t: 0\nmodel name\t: A\n\n", 0, "A"},
        {"processor\t: 0\nmodel name\t: BBBBBBBB\n\n", "CPU name:,only,\n", "BBBBBBBB"},
        {"processor\t: 0\n\n", "CPU type:,only,\n", "unknown CPU"},
        {"processor\t: 0\nmodel name\t: A\n", "CPU name:,N,\nCPU type:,T,\n", "T, N"},
        {0, "CPU type:,Type,\nCPU name:,Name,\n", "Type, Name"},
        {"", "", "unknown CPU"},
        {"cpu\t\t: POWER8\n", "", "POWER8"}};
    sequences("queries", 0, 8, depth, [&](const std::vector<long>& ids) {
        World& w = world();
        Probe p;
        for (long i : ids) {
            w.has_cpuinfo = all[i].cpuinfo;
            w.cpuinfo = all[i].cpuinfo ? all[i].cpuinfo : "";
            w.has_likwid = all[i].likwid;
            w.likwid = all[i].likwid ? all[i].likwid : "";
            query(all[i].want, "repeated query", ids.size() % 2 ? &p : 0);
        }
    });
}

// names of few characters, with blanks within and around them, in every place a
// name may come from
static void names()
{
    static const char letters[] = "aB@ ";
    static const char *name_fields[] = {"CPU name:,", "CPU name,", "CPU name :,", "STRUCT,CPU name:,", "  CPU name:  ,"};
    static const char *type_fields[] = {"CPU type:,", "CPU type,", "CPU type :,", "STRUCT,CPU type:,", "  CPU type:  ,"};
    World& w = world();
    for (long n = 1; n <= 4; ++n) for (long code = 0; code < (1L << 2 * n); ++code) {
        std::string v;
        for (long i = 0, c = code; i < n; ++i, c >>= 2) v += letters[c & 3];
        // blanks around the name are added below
        if (v[0] == ' ' || v[n - 1] == ' ') continue;
        for (long before = 0; before < 3; ++before) for (long after = 0; after < 4; ++after) {
            if (!begin("names", {n, code, before, after})) continue;
            std::string padded = std::string(before, ' ') + v + std::string(after, ' ');
            for (const char *key : {"model name\t:", "cpu\t\t:", "cpu\t:"}) for (int end = 0; end < 2; ++end) {
                w.has_likwid = end;
                w.likwid = "";
                w.has_cpuinfo = true;
                w.cpuinfo = std::string("processor\t: 0\n") + key + padded + (end ? "\n\n" : "");
                query(v, "name in /proc/cpuinfo");
            }
            for (int f = 0; f < 5; ++f) for (int swapped = 0; swapped < 2; ++swapped) {
                w.has_likwid = true;
                w.has_cpuinfo = false;
                w.likwid = swapped ?
                    std::string(name_fields[f]) + padded + ",,\n" + type_fields[f] + "T,,\n" :
                    std::string(type_fields[f]) + padded + ",,\n" + name_fields[f] + "N,,\n";
                query(swapped ? "T, " + v : v + ", N", "name from likwid-topology");
            }
        }
    }
}

// longer files: names anywhere, very long lines
static void long_files()
{
    World& w = world();
    for (long before : {0, 1, 50, 2000}) for (long width : {10, 4094, 4095, 4096, 4097, 20000}) for (long cpus : {1, 2, 64}) {
        if (!begin("long_cpuinfo", {before, width, cpus})) continue;
        w.has_likwid = false;
        w.has_cpuinfo = true;
        w.cpuinfo = "flags\t\t: " + std::string(width, 'x') + "\n";
        for (int i = 0; i < before; ++i) w.cpuinfo += i % 5 ? "vendor_id\t: GenuineIntel\n" : "\n";
        for (int i = 0; i < cpus; ++i) {
            w.cpuinfo += "processor\t: 1\nmodel name\t: the CPU " + std::string(i ? 3 : 1, 'n') + "\nbugs\t\t:\n\n";
        }
        query("the CPU n", "long /proc/cpuinfo");
    }
}

// ---------------------------------------------------------------- evaluation
static const char *NAMES[] = {"", "a", "b", "ab", "ba", "Jacobi 3D", "Jacobi"};
static const char *FAMILIES[] = {"a", "ab", "abb", "Jacobi 3D", "b", "a family whose name is longer than its column is wide"};
static const char *REVISIONS[] = {"0", "r", "0123456789abcdef012", "4e9a5e6c9d1b"};
static const std::vector<int> DIMS[] = {
    {0}, {1}, {-1}, {2147483647, -2147483647 - 1}, {32, 32, 32}, {1, 2, 3, 4}, {1048576, 1048576, 1048576, 1048576}};
static const double PERF[] = {0, 1.5, 1e-9, 123456789.0, -2.25, 1.0 / 3, 1e300};
static const long TIMES[] = {0, 1, 951782400, 1078012799, 1483228799, 1483228800, 1605700000, 2147483647, 2147483648L, 4102444800L, 253402300799L};
static const int HOSTS[] = {0, 1, 31, 32, 33, 64, 255, 1023, 2046};

struct Call { int name, family, dim, perf; };
static int runs;
static std::vector<int> seen;

template<typename BASE>
struct Bench : public BASE
{
    int fam, spec;
    double value;
    Bench(int fam, int spec, double value) : fam(fam), spec(spec), value(value) {}
    std::string family() { return FAMILIES[fam]; }
    std::string species() { return spec ? "gold" : "a species with a long name"; }
    double performance(std::vector<int> dim) { ++runs; seen = dim; return value; }
    std::string unit() { return spec ? "GLUPS" : "u"; }
};

static std::vector<std::string> fields(const std::string& s)
{
    std::vector<std::string> r;
    std::stringstream in(s);
    std::string item;
    while (std::getline(in, item, ';')) {
        std::size_t a = item.find_first_not_of(" \n"), b = item.find_last_not_of(" \n");
        r.push_back(a == std::string::npos ? "" : item.substr(a, b - a + 1));
    }
    return r;
}

struct Capture
{
    std::ostringstream out;
    std::streambuf *old;
    Capture() : old(std::cout.rdbuf(out.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
};

static std::string stamp(long sec)
{
    // civil from days
    static const char *months[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    long days = sec / 86400, rest = sec % 86400, year = 1970;
    for (;;) {
        bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
        long n = leap ? 366 : 365;
        if (days < n) break;
        days -= n;
        ++year;
    }
    bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
    int len[] = {31, leap ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int m = 0;
    while (days >= len[m]) days -= len[m++];
    char buf[64];
    std::snprintf(buf, sizeof(buf), "%ld-%s-%02ld %02ld:%02ld:%02ld", year, months[m], days + 1, rest / 3600, rest / 60 % 60, rest % 60);
    return buf;
}

struct Case { int name, family, dim, perf, rev, time, host, gpu, output, spec; };

template<typename BENCH>
static void evaluate_one(evaluate& eval, const Case& c, const std::string& device, const std::string& order)
{
    World& w = world();
    w.sec = TIMES[c.time];
    w.usec = 999999;
    w.host = std::string(HOSTS[c.host], 'h');
    runs = 0;
    seen.clear();
    std::string got;
    int files = open_files();
    {
        w.active = true;
        Capture capture;
        BENCH b(c.family, c.spec, PERF[c.perf]);
        if (c.output == 2) eval(b, DIMS[c.dim]); // output is the default
        else eval(b, DIMS[c.dim], c.output != 0);
        w.active = false;
        got = capture.out.str();
    }
    MC_CHECK(open_files() == files && w.pipes.empty(), "files were left open");
    bool selected = std::string(FAMILIES[c.family]).find(NAMES[c.name]) != std::string::npos;
    MC_CHECK(runs == (selected ? 1 : 0), "benchmark of family \"%s\" ran %d times when evaluating \"%s\"", FAMILIES[c.family], runs, NAMES[c.name]);
    if (selected) MC_CHECK(seen == DIMS[c.dim], "the benchmark got other dimensions");
    if (!selected || !c.output) {
        MC_CHECK(got.empty(), "unexpected output: %s", got.c_str());
        return;
    }
    MC_CHECK(got.size() && got[got.size() - 1] == '\n' && got.find('\n') == got.size() - 1, "not a single line: %s", got.c_str());
    std::string dim = "(";
    for (std::size_t i = 0; i < DIMS[c.dim].size(); ++i) dim += (i ? ", " : "") + std::to_string(DIMS[c.dim][i]);
    char perf[64];
    std::snprintf(perf, sizeof(perf), "%g", PERF[c.perf]);
    BENCH b(c.family, c.spec, 0);
    std::vector<std::string> want = {REVISIONS[c.rev], stamp(w.sec), w.host, device, order, b.family(), b.species(), dim + ")", perf, b.unit()};
    std::vector<std::string> have = fields(got);
    MC_CHECK(have.size() == want.size(), "%zu fields instead of %zu: %s", have.size(), want.size(), got.c_str());
    for (std::size_t i = 0; i < want.size(); ++i) {
        MC_CHECK(have[i] == want[i], "field %zu is \"%.100s\", expected \"%.100s\"", i, have[i].c_str(), want[i].c_str());
    }
}

static void evaluate_case(evaluate& eval, const Case& c)
{
    World& w = world();
    gpu_current = c.gpu;
    if (c.gpu < 4) {
        evaluate_one<Bench<gpu_benchmark> >(eval, c, gpu_names[c.gpu], "GPU");
    } else {
        w.has_likwid = c.gpu == 5;
        w.likwid = "CPU name:,N\nCPU type:,T,\n";
        w.has_cpuinfo = c.gpu != 6;
        w.cpuinfo = "processor\t: 0\nmodel name\t: A CPU\n\n";
        evaluate_one<Bench<cpu_benchmark> >(eval, c, c.gpu == 5 ? "T, N" : c.gpu == 4 ? "A CPU" : "unknown CPU", "CPU");
    }
    mc::step();
    mc::count_label("nontrivial");
}

static const int SIZES[] = {7, 6, 7, 7, 4, 11, 9, 7, 3, 2};

// every pair of choices for two of the fields, the others at two defaults
static void evaluations()
{
    for (long base = 0; base < 2; ++base) for (long i = 0; i < 10; ++i) for (long j = i + 1; j < 10; ++j)
    for (long a = 0; a < SIZES[i]; ++a) for (long b = 0; b < SIZES[j]; ++b) {
        if (!begin("evaluate", {base, i, j, a, b})) continue;
        Case c = {0, 0, 4, 1, 0, 6, 2, base ? 4 : 0, int(2 - base), int(base)};
        int *f = &c.name;
        f[i] = int(a);
        f[j] = int(b);
        evaluate eval(NAMES[c.name], REVISIONS[c.rev]);
        evaluate_case(eval, c);
        mc::state(mc::mix(mc::mix(i, j), mc::mix(a, b)));
    }
    // names, families and output completely
    for (long name = 0; name < 7; ++name) for (long fam = 0; fam < 6; ++fam) for (long out = 0; out < 3; ++out) for (long dim = 0; dim < 7; ++dim) for (long gpu : {0, 4, 5, 6}) {
        if (!begin("select", {name, fam, out, dim, gpu})) continue;
        Case c = {int(name), int(fam), int(dim), 1, 0, 6, 2, int(gpu), int(out), 1};
        evaluate eval(NAMES[name], REVISIONS[0]);
        evaluate_case(eval, c);
    }
}

// several evaluations by one object
static void histories(int depth)
{
    static const Case alphabet[] = {
        {0, 0, 0, 1, 1, 0, 3, 0, 1, 0}, {0, 1, 4, 2, 1, 9, 8, 4, 2, 1}, {0, 4, 5, 5, 1, 3, 0, 5, 0, 1},
        {0, 3, 6, 3, 1, 5, 1, 6, 1, 0}, {0, 5, 3, 4, 1, 7, 5, 3, 2, 1}};
    for (long name = 0; name < 7; ++name) {
        sequences("history", name, 5, depth, [&](const std::vector<long>& ids) {
            evaluate eval(NAMES[name], REVISIONS[1]);
            for (long i : ids) {
                Case c = alphabet[i];
                c.name = int(name);
                evaluate_case(eval, c);
            }
        });
    }
    if (begin("header", {0})) {
        std::string line;
        {
            Capture capture;
            evaluate eval("", "");
            eval.print_header();
            line = capture.out.str();
        }
        static const char *want[] = {"#rev", "date", "host", "device", "order", "family", "species", "dimensions", "perf", "unit"};
        std::vector<std::string> have = fields(line);
        MC_CHECK(have.size() == 10, "the header names %zu columns", have.size());
        for (int i = 0; i < 10; ++i) MC_CHECK(have[i] == want[i], "column %d is %s", i, have[i].c_str());
        mc::step();
    }
}

static void clocks()
{
    World& w = world();
    for (long i = 0; i < 11; ++i) for (long usec : {0, 1, 250000, 500000, 999999}) {
        if (!begin("time", {i, usec})) continue;
        w.sec = TIMES[i];
        w.usec = 0;
        double a = Probe::clock();
        w.usec = usec;
        double b = Probe::clock();
        w.sec += 3;
        double c = Probe::clock();
        // doubles resolve a fraction of a microsecond up to 2^33 s
        double eps = i < 10 ? 1e-6 : 1e-4;
        MC_CHECK(std::fabs(b - a - usec * 1e-6) <= eps && std::fabs(c - b - 3) <= eps, "time differences are %.9g and %.9g after %ld us and 3 s", b - a, c - b, usec);
        mc::step();
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    // dates are UTC wherever the machine stands
    setenv("TZ", mc::g().shard % 2 ? "AAA-13:45" : "BBB+11", 1);
    tzset();
    int depth = mc::thorough() ? 5 : 4;
    sequences("cpuinfo", 0, N_CPUINFO, depth, one_cpuinfo);
    sequences("likwid", 0, N_LIKWID, depth, one_likwid);
    if (begin("missing", {0})) {
        world().has_cpuinfo = world().has_likwid = false;
        query("unknown CPU", "nothing");
    }
    query_histories(mc::thorough() ? 5 : 4);
    names();
    long_files();
    evaluations();
    histories(mc::thorough() ? 5 : 4);
    clocks();
    mc::sample("/proc/cpuinfo: \"\", \"processor : 0\", \"cpu : POWER8...\", no likwid-topology -> POWER8...");
    mc::sample("likwid-topology: \"CPU type:\", \"CPU name:,X\" -> not usable, /proc/cpuinfo is read");
    mc::sample("evaluate(\"ab\"): family \"abb\" runs once, family \"b\" doesn't");
    return mc::finish();
}
