// Bounded-exhaustive exploration framework shared by all harnesses.
//
// A harness registers scenarios. A scenario enumerates *every* case of a finite
// space (all input tuples of an alphabet, all operation sequences up to a depth,
// all schedules up to a preemption bound) and checks the property on each.
// There is no randomness: case number N of scenario S is always the same case,
// which is what a replay file stores.
#ifndef VP_HPP
#define VP_HPP

#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vp {

struct scenario {
    const char *name;
    void (*func)();
};

inline std::vector<scenario> &scenarios() { static std::vector<scenario> s; return s; }

struct reg {
    reg(const char *n, void (*f)()) { scenarios().push_back({n, f}); }
};

struct state_t {
    const char *property = "?";
    bool thorough = false;
    unsigned shard = 0, num_shards = 1;
    const char *replay_path = "";   // where a violation is written
    const char *stats_path = "";
    // replay mode
    std::string only_scenario;
    std::set<std::string> selected;    // scenarios of this harness that belong to the property
    int64_t only_case = -1;

    const char *current = "";
    int64_t case_idx = -1;          // index of current case in the scenario
    int64_t unit_idx = -1;          // index of current sharding unit
    int64_t unit_case = -1;
    bool in_case = false;
    volatile uint64_t progress = 0;
    uint64_t hang_progress = 0;
    int hang_ticks = 0;
    int hang_limit = 40;            // seconds of CPU time without progress
    char desc[16384];

    uint64_t states = 0, transitions = 0, evals = 0, cases = 0, validated = 0;
    uint64_t nontrivial = 0;
    std::vector<std::pair<std::string, uint64_t>> per_scenario;
    std::vector<std::string> samples;
    std::set<std::string> known;       // keys listed in the known findings file
    std::set<std::string> known_seen;
    std::vector<std::string> notes;
};

inline state_t g_state;
#define VP_NOTSAN __attribute__((no_sanitize("thread")))
VP_NOTSAN inline state_t &st() { return g_state; }

inline bool thorough() { return st().thorough; }

// Declares the next case of the current scenario. False: it belongs to another
// shard (or is not the one being replayed): skip it.
inline bool begin() {
    auto &s = st();
    ++s.case_idx;
    ++s.progress;
    s.desc[0] = 0;
    if (s.only_case >= 0) {
        if (s.case_idx != s.only_case) { s.in_case = false; return false; }
    } else if (s.num_shards > 1 && uint64_t(s.case_idx) % s.num_shards != s.shard) {
        s.in_case = false;
        return false;
    }
    s.in_case = true;
    ++s.cases;
    return true;
}

inline void describe(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(st().desc, sizeof st().desc, fmt, ap);
    va_end(ap);
}

// Called by the crash handler too: a function that fills `desc` for the case being run.
inline std::function<std::string()> &describer() { static std::function<std::string()> f; return f; }

inline void put(int fd, const char *s) { auto r = write(fd, s, strlen(s)); (void)r; }

[[noreturn]] VP_NOTSAN inline void report(const char *what) {
    auto &s = st();
    static volatile sig_atomic_t busy = 0;
    if (busy) _exit(1);
    busy = 1;
    if (describer() && !s.desc[0]) {
        auto d = describer()();
        snprintf(s.desc, sizeof s.desc, "%s", d.c_str());
    }
    FILE *f = fopen(s.replay_path, "w");
    if (f) {
        fprintf(f, "property %s\nscenario %s\ncase %" PRId64 "\nthorough %d\nwhat %s\ninput %s\n",
                s.property, s.current, s.case_idx, int(s.thorough), what, s.desc);
        fclose(f);
    }
    printf("violation in scenario %s, case %" PRId64 ": %s\n  input: %s\n", s.current, s.case_idx, what, s.desc);
    printf("VIOLATION property=%s replay=%s\n", s.property, s.replay_path);
    fflush(stdout);
    _exit(1);
}

[[noreturn]] inline void fail(const char *fmt, ...) {
    char buf[16384];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    report(buf);
}

// A failure which may be a recorded known finding, identified by `key`.
inline void fail_key(const char *key, const char *fmt, ...) {
    char buf[16384];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    auto &s = st();
    if (s.known.count(key)) {
        if (s.known_seen.insert(key).second) {
            printf("KNOWN-FINDING: property=%s %s: %s\n", s.property, key, buf);
            fflush(stdout);
        }
        return;
    }
    report((std::string(key) + ": " + buf).c_str());
}

#define VP_CHECK(cond, ...) do { ++::vp::st().evals; if (!(cond)) ::vp::fail(__VA_ARGS__); } while (0)
#define VP_CHECK_KEY(key, cond, ...) do { ++::vp::st().evals; if (!(cond)) ::vp::fail_key(key, __VA_ARGS__); } while (0)

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP_SCENARIO(id) static void id(); static ::vp::reg VP_CAT(vp_reg_, id)(#id, &id); static void id()

inline void sample(const std::string &s) { if (st().samples.size() < 12) st().samples.push_back(s); }
inline void states(uint64_t n = 1) { st().states += n; }
inline void transitions(uint64_t n = 1) { st().transitions += n; }
inline void nontrivial(uint64_t n = 1) { st().nontrivial += n; }
inline void validated(uint64_t n = 1) { st().validated += n; }

inline const char *sig_text(int sig) {
    switch (sig) {
    case SIGSEGV: return "invalid memory access (SIGSEGV)";
    case SIGBUS: return "invalid memory access (SIGBUS)";
    case SIGABRT: return "abort: assertion failure, sanitizer report or terminate";
    case SIGFPE: return "arithmetic fault (SIGFPE)";
    case SIGILL: return "illegal instruction (SIGILL)";
    }
    return "signal";
}

inline void on_crash(int sig) { report(sig_text(sig)); }

VP_NOTSAN inline void on_tick(int) {
    auto &s = st();
    uint64_t p = s.progress;
    if (p != s.hang_progress) { s.hang_progress = p; s.hang_ticks = 0; return; }
    if (++s.hang_ticks > s.hang_limit) report("no termination: the case did not finish within its CPU time limit");
}

inline std::string json_escape(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

inline void write_stats() {
    auto &s = st();
    if (!s.stats_path[0]) return;
    FILE *f = fopen(s.stats_path, "w");
    if (!f) return;
    fprintf(f, "{\"states\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"evals\":%" PRIu64 ",\"cases\":%" PRIu64
               ",\"nontrivial\":%" PRIu64 ",\"validated\":%" PRIu64 ",\"per_scenario\":{",
            s.states, s.transitions, s.evals, s.cases, s.nontrivial, s.validated);
    bool first = true;
    for (auto &p : s.per_scenario) {
        fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", p.first.c_str(), p.second);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &p : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(p).c_str()); first = false; }
    fprintf(f, "],\"notes\":[");
    first = true;
    for (auto &p : s.notes) { fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(p).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
}

inline int run(int argc, char **argv) {
    auto &s = st();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        const char *v = argv[i + 1];
        if (a == "--property") s.property = v;
        else if (a == "--tier") s.thorough = !strcmp(v, "thorough");
        else if (a == "--shard") sscanf(v, "%u/%u", &s.shard, &s.num_shards);
        else if (a == "--replay-out") s.replay_path = v;
        else if (a == "--stats") s.stats_path = v;
        else if (a == "--scenario") s.only_scenario = v;
        else if (a == "--select") s.selected.insert(v);
        else if (a == "--case") s.only_case = atoll(v);
        else if (a == "--known") s.known.insert(v);
    }
    static char altstack[1 << 16];
    stack_t ss{};
    ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    for (int sig : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(sig, &sa, nullptr);
    struct sigaction st_{};
    st_.sa_handler = on_tick; st_.sa_flags = SA_ONSTACK | SA_RESTART;
    sigaction(SIGPROF, &st_, nullptr);
    itimerval it{{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);

    for (auto &sc : scenarios()) {
        if (!s.only_scenario.empty() && s.only_scenario != sc.name) continue;
        if (!s.selected.empty() && !s.selected.count(sc.name)) continue;
        s.current = sc.name;
        s.case_idx = -1;
        describer() = nullptr;
        auto before = s.cases;
        sc.func();
        s.per_scenario.push_back({sc.name, s.cases - before});
    }
    write_stats();
    return 0;
}

} // namespace vp

#ifndef VP_NO_MAIN
int main(int argc, char **argv) { return vp::run(argc, argv); }
#endif

#endif
