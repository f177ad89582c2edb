// Common part of every monitor driver: case loop, PRNG, verdict and coverage recording.
//
// A driver is run as:  driver PROP --seed S --from A --to B --step K --out FILE [--budget SECONDS-per-case]
// and executes the cases A, A+K, ... < B of property PROP.  Each case is a pure function of (PROP, S, index),
// so a (property, seed, index) triple replays it.  The driver writes to FILE, one record per line:
//   C <index>                    the case that is about to run (so that a crash or a hang can be attributed)
//   V <index> <key> \t <text>    a violation seen by a monitor
//   S <text>                     a sample case, written out
//   K <name> <count>             a counter (events observed by the monitors)
//   N <evaluations> <nontrivial distinct hashes...>  (hashes on D lines)
//   D <hash>                     hash of one non-trivial case
//   E                            finished normally
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <execinfo.h>
#include <sys/mman.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <functional>
#include <atomic>
#include <thread>
#include <time.h>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vf {

struct rng {
    uint64_t s;
    explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }       // inclusive
    bool chance(int num, int den) { return below(den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

inline std::string esc(const std::string& s) {
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c == 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

// UTF-8 for messages
inline std::string u8(int c) {
    std::string r;
    if (c < 0) return "<" + std::to_string(c) + ">";
    if (c < 0x20 || (c >= 0x7f && c < 0xa0) || (c >= 0xd800 && c < 0xe000) || c > 0x10ffff) {
        char b[16]; snprintf(b, sizeof b, "<%x>", c); return b;
    }
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
template<class S> inline std::string u8s(const S& s) { std::string r; for (auto c : s) r += u8((int)c); return r; }

struct ctx {
    rng r;
    long index;
    FILE* out;
    std::map<std::string, long>* counters;
    std::string text;           // description of the case (for replays and samples)
    bool nontrivial = false;
    int fails = 0;
    ctx(uint64_t seed, long i, FILE* o, std::map<std::string, long>* c) : r(seed), index(i), out(o), counters(c) {}
    void count(const std::string& k, long n = 1) { (*counters)[k] += n; }
    void note(const std::string& s) { text += s; text += "\n"; }
    // key: the kind of disagreement (used to match known findings); msg: the observation
    void fail(const std::string& key, const std::string& msg) {
        ++fails;
        if (fails > 5) return;
        fprintf(out, "V %ld %s\t%s\n", index, key.c_str(), esc(msg + "\n-- case --\n" + text).c_str());
        fflush(out);
    }
};

typedef std::function<void(ctx&)> case_fn;
struct prop { const char* name; case_fn fn; };

// ---- C27: memory is given back -----------------------------------------------------------------------------------------
// The workload of another property is run several times in the same process. What it has allocated and not freed when it is
// over must not grow from run to run (the first may fill caches). If it does, one more run with recorded allocations tells
// where the blocks that are left come from.
namespace leak {
struct block { void* p; size_t n; void* pc[40]; int depth; };
const size_t CAP = 1 << 20;
inline block*& table() { static block* t = 0; return t; }
inline bool& on() { static bool b = false; return b; }
inline bool& full() { static bool b = false; return b; }
inline size_t slot(const volatile void* p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
extern "C" inline void vf_on_malloc(const volatile void* p, size_t n) {
    if (!on() || !p) return;
    on() = false;
    size_t k = slot(p), tries = 0; block* t = table();
    while (t[k].p && t[k].p != (void*)1 && ++tries < 4096) k = (k + 1) % CAP;
    if (tries >= 4096) full() = true; else { t[k].p = (void*)p; t[k].n = n; t[k].depth = backtrace(t[k].pc, 40); }
    on() = true;
}
extern "C" inline void vf_on_free(const volatile void* p) {
    if (!on() || !p) return;
    size_t k = slot(p), tries = 0; block* t = table();
    while (t[k].p && ++tries < 4096) { if (t[k].p == p) { t[k].p = (void*)1; return; } k = (k + 1) % CAP; }
}
// innermost function of the project in a stack: "function file:line", and the whole stack
inline std::string where(const block& b, std::string& all) {
    std::string key;
    for (int i = 0; i < b.depth; ++i) {
        char buf[8192]; memset(buf, 0, sizeof buf);
        __sanitizer_symbolize_pc((char*)b.pc[i] - 1, "%f|%s:%l", buf, sizeof buf - 2);
        for (const char* q = buf; *q; q += strlen(q) + 1) {
            std::string x = q, f = x.substr(0, x.find('|')), at = x.find('|') == std::string::npos ? "" : x.substr(x.find('|') + 1);
            if (at.find("/TameParse/") == std::string::npos && at.find("/harness/") == std::string::npos) continue;
            std::string n; int deep = 0; for (char ch : f) { if (ch == '<') ++deep; else if (ch == '>') { if (deep) --deep; } else if (ch == '(') break; else if (!deep && ch != ' ') n += ch; }
            if (n.find("vf_on_") == 0 || n.find("leak::") != std::string::npos || n.find("run_driver") == 0) continue;
            if (n.find("container::") != std::string::npos || n.find("vf::") == 0) { all += "    " + n + " " + at + "\n"; continue; }
            all += "    " + n + " " + at + "\n"; if (key.empty()) key = n;
        }
    }
    return key.empty() ? "?" : key;
}
inline size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }
inline void once(const case_fn& fn, ctx& c, FILE* nul, std::map<std::string, long>& counters) {
    ctx d(0, c.index, nul, &counters); d.r = c.r;
    try { fn(d); } catch (...) { }
    c.text.clear(); c.text = d.text; c.nontrivial = d.nontrivial;
}
inline void run(ctx& c, const prop& q) {
    static FILE* nul = fopen("/dev/null", "w"); static std::map<std::string, long> counters;
    size_t b[5]; for (int k = 0; k < 5; ++k) { once(q.fn, c, nul, counters); c.text.shrink_to_fit(); b[k] = bytes(); if (k >= 2 && b[k] <= b[k - 1]) { c.count(std::string("workload-") + q.name); return; } }
    if (!table()) { table() = (block*)mmap(0, CAP * sizeof(block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); void* x[4]; backtrace(x, 4); __sanitizer_install_malloc_and_free_hooks(vf_on_malloc, vf_on_free); }
    madvise(table(), CAP * sizeof(block), MADV_DONTNEED); full() = false;
    on() = true; once(q.fn, c, nul, counters); on() = false;
    struct found { size_t n = 0, bytes = 0; std::string stack; }; std::map<std::string, found> by; int looked = 0;
    for (size_t k = 0; k < CAP && looked < 200; ++k) if (table()[k].p > (void*)1) { ++looked; std::string st, key = where(table()[k], st); found& f = by[key]; ++f.n; f.bytes += table()[k].n; if (f.stack.empty()) f.stack = st; }
    for (auto& x : by) if (x.second.stack.find("test_stage") != std::string::npos) { c.fail("leak:tests", std::to_string(b[4] - b[3]) + " bytes more after each time that tests are run, among them some allocated by\n" + x.second.stack); return; }      // its stages go with all that they own
    by.erase("leak::once"); if (by.empty()) by["?"];
    for (auto& x : by) c.fail("leak:" + x.first, std::to_string(b[4] - b[3]) + " bytes more after each run of a " + q.name + " workload, among them " + std::to_string(x.second.bytes) + " in " + std::to_string(x.second.n) + " blocks allocated by\n" + x.second.stack);
}
}

extern "C" inline void on_hang(int) { _exit(97); }
// the race detector holds signals back, so there the limit is kept by a thread of its own
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
inline std::atomic<long> case_start{0};
inline long cpu_seconds() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec; }
inline void watch_cpu(int budget) { std::thread([budget] { for (;;) { usleep(500000); if (cpu_seconds() - case_start.load() > budget) _exit(97); } }).detach(); }

inline int run_driver(int argc, char** argv, const std::vector<prop>& props) {
    if (argc < 2) { fprintf(stderr, "usage: driver PROP --seed S --from A --to B --step K --out FILE\n"); return 2; }
    std::string name = argv[1];
    uint64_t seed = 1; long from = 0, to = 1, step = 1; std::string outName; int budget = 60; bool show = false;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--show") { show = true; continue; }
        if (i + 1 >= argc) return 2;
        std::string v = argv[++i];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--from") from = atol(v.c_str());
        else if (a == "--to") to = atol(v.c_str());
        else if (a == "--step") step = atol(v.c_str());
        else if (a == "--out") outName = v;
        else if (a == "--budget") budget = atoi(v.c_str());
        else return 2;
    }
    const prop* p = 0;
    for (auto& q : props) if (name == q.name) p = &q;
    std::vector<prop> loads; prop all = { "C27", [&](ctx& c) { leak::run(c, loads[(c.index / 8) % loads.size()]); } };
    if (name == all.name && !p) { for (auto& q : props) if (strcmp(q.name, "C26") && strcmp(q.name, "C19") && strcmp(q.name, "C24") && strcmp(q.name, "C28")) loads.push_back(q); p = &all; }      // (those run other processes)
    if (!p) { fprintf(stderr, "unknown property %s\n", name.c_str()); return 2; }
    FILE* out = outName.empty() ? stdout : fopen(outName.c_str(), "a");
    if (!out) return 2;
    // a case that uses more than `budget` seconds of CPU is ended with status 97 (decided by the runner, after a re-run)
    signal(SIGVTALRM, on_hang);
    std::map<std::string, long> counters;
    std::set<uint64_t> seen;
    long evals = 0;
    int samples = 0;
    for (long i = from; i < to; i += step) {
        fprintf(out, "C %ld\n", i);
        fflush(out);
        struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = budget;
#ifdef VF_TSAN
        case_start = cpu_seconds(); if (i == from) watch_cpu(budget);
#else
        setitimer(ITIMER_VIRTUAL, &tv, 0);
#endif
        ctx c(hash_str(name) ^ (seed * 0x100000001B3ull) ^ ((uint64_t)i << 20), i, out, &counters);
        try {
            p->fn(c);
        } catch (const std::exception& e) {
            c.fail(std::string("exception:") + typeid(e).name(), std::string("uncaught exception ") + e.what());
        } catch (...) {
            c.fail("exception:unknown", "uncaught exception");
        }
        ++evals;
        if (show) printf("%s\n", c.text.c_str());
        if (c.nontrivial && seen.insert(hash_str(c.text)).second) {
            fprintf(out, "D %016llx\n", (unsigned long long)hash_str(c.text));
            if (samples < 2) { ++samples; fprintf(out, "S %s\n", esc(c.text.substr(0, 1500)).c_str()); }
        }
    }
    struct itimerval tv; memset(&tv, 0, sizeof tv);
    setitimer(ITIMER_VIRTUAL, &tv, 0);
    for (auto& k : counters) fprintf(out, "K %s %ld\n", k.first.c_str(), k.second);
    fprintf(out, "N %ld\n", evals);
    fprintf(out, "E\n");
    fflush(out);
    if (out != stdout) fclose(out);
#ifndef VF_TSAN
    if (getenv("VF_LSAN")) __lsan_do_recoverable_leak_check();
#endif
    _exit(0);
}

}
#endif
