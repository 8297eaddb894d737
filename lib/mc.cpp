#include "mc.hpp"
#define VP_NO_MAIN
#include "vp.hpp"
#include <algorithm>
#include <cerrno>
#include <malloc.h>
#include <memory>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <asm/prctl.h>
#include <unordered_map>
#include <vector>

extern "C" { extern char __libc_single_threaded; }

namespace mc {
namespace {

constexpr int MAXT = 12;
constexpr size_t STACK = 1024 * 1024;
using u64 = uint64_t;
using u32 = uint32_t;

struct vclock {
    u32 c[MAXT] = {};
    void join(const vclock &o) { for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]); }
    void clear() { for (auto &x : c) x = 0; }
};

enum class status { ready, mutex, rwlock, cond, cond_timed, join, finished, unused };

struct fiber {
    void *sp = nullptr;
    char *stack = nullptr;
    status st = status::unused;
    const void *wait = nullptr;     // object waited on
    bool wait_write = false;
    int join_target = -1;
    bool woken_spurious = false, timed_out = false;
    bool detached = false, joined = false;
    vclock vc;
    vclock final_vc;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    int streak = 0;
    char *tls = nullptr;            // thread control block, if the program has thread-local variables
};

struct mutex_t { int owner = -1; int depth = 0; vclock vc; };
struct rwlock_t { int writer = -1; int readers = 0; vclock wvc, rvc; };

struct record { u32 clk; uint8_t tid, mask; bool write, atomic; };
struct cell { u64 key = 0; u32 gen = 0; uint8_t n = 0; bool freed = false; record r[8]; };

struct engine {
    bool active = false;    // an execution is running
    bool rt = false;        // inside the runtime
    options opt;
    fiber f[MAXT];
    int nf = 0, cur = 0;
    void *main_sp = nullptr;
    std::vector<std::pair<int, int>> choices; // (n, chosen)
    size_t pos = 0;
    int preempt_used = 0, spurious_used = 0;
    int steps = 0;
    u64 now = 0;            // nanoseconds
    const std::function<void()> *body = nullptr;
    std::unordered_map<const void *, mutex_t> mutexes;
    std::unordered_map<const void *, rwlock_t> rwlocks;
    std::unordered_map<const void *, vclock> atomics;
    vclock fence;
    std::vector<void *> quarantine;
    std::vector<std::pair<uintptr_t, size_t>> freed;
    std::string trace;
    std::vector<uint8_t> sched;
    // shadow
    std::vector<cell> shadow;
    size_t shadow_used = 0;
    u32 gen = 1;
};

engine *g_engine = nullptr;
engine &E() {
    if (!g_engine) { void *m = malloc(sizeof(engine)); g_engine = new (m) engine; }
    return *g_engine;
}

struct rt_guard {
    bool prev;
    rt_guard() { prev = E().rt; E().rt = true; }
    ~rt_guard() { E().rt = prev; }
};

bool on() { return g_engine && g_engine->active && !g_engine->rt; }

[[noreturn]] void violation(const std::string &what) {
    auto &e = E();
    e.active = false;
    e.rt = true;
    std::string d = vp::st().desc;
    d += " | schedule";
    for (size_t i = 0, j; i < e.sched.size(); i = j) { // thread, x how many times in a row
        for (j = i + 1; j < e.sched.size() && e.sched[j] == e.sched[i]; ) ++j;
        d += ' ' + std::to_string(int(e.sched[i])); if (j - i > 1) d += 'x' + std::to_string(j - i);
    }
    d += " | trace " + e.trace;
    if (d.size() > 15000) d = d.substr(0, 15000);
    snprintf(vp::st().desc, sizeof vp::st().desc, "%s", d.c_str());
    vp::report(what.c_str());
}

// ---- context switch -------------------------------------------------------
extern "C" void mc_switch(void **from, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

// ---- thread-local variables ------------------------------------------------
// Fibers other than the first have their own thread-local storage, made as the
// dynamic linker makes it for a thread.
char *main_tcb() { char *p; asm("movq %%fs:0, %0" : "=r"(p)); return p; }
struct tls_api { bool used = false; void *(*alloc)(void *) = nullptr; void (*release)(void *, bool) = nullptr; void (*ctype)() = nullptr; char *main = nullptr; };
tls_api &T() {
    static tls_api *a = nullptr;
    if (!a) {
        a = new (malloc(sizeof(tls_api))) tls_api;
        dl_iterate_phdr([](dl_phdr_info *i, size_t, void *u) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz) *(bool *)u = true; return 1; }, &a->used); // the program itself comes first
        a->alloc = (void *(*)(void *))dlsym(RTLD_DEFAULT, "_dl_allocate_tls");
        a->release = (void (*)(void *, bool))dlsym(RTLD_DEFAULT, "_dl_deallocate_tls");
        a->ctype = (void (*)())dlsym(RTLD_DEFAULT, "__ctype_init");
        a->main = main_tcb();
        if (a->used && (!a->alloc || !a->release || !a->ctype)) { fprintf(stderr, "no thread-local storage for fibers\n"); abort(); }
    }
    return *a;
}
void set_tcb(char *p) { syscall(SYS_arch_prctl, ARCH_SET_FS, p); }
void make_tls(fiber &f) {
    auto &t = T();
    if (!t.used) return;
    char *p = (char *)t.alloc(nullptr);
    *(char **)p = p; *(char **)(p + 0x10) = p;                                  // tcb, self
    memcpy(p + 0x18, t.main + 0x18, 0x28 - 0x18); memcpy(p + 0x28, t.main + 0x28, 0x10); // flags, guards
    memcpy(p + 0x2d0, t.main + 0x2d0, 4);                                       // tid
    f.tls = p;
    set_tcb(p); t.ctype(); set_tcb(E().f[E().cur].tls ? E().f[E().cur].tls : t.main);
}

void schedule(bool yielding);

void fiber_finish() {
    auto &e = E();
    auto &f = e.f[e.cur];
    f.final_vc = f.vc;
    f.st = status::finished;
    schedule(false);
    abort();
}

void fiber_main() {
    auto &e = E();
    e.rt = false;
    int me = e.cur;
    if (me == 0) {
        (*e.body)();
    } else {
        e.f[me].ret = e.f[me].fn(e.f[me].arg);
    }
    e.rt = true;
    fiber_finish();
}

void prepare(fiber &f) {
    if (!f.stack) {
        f.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f.stack, 4096, PROT_NONE);
    }
    auto top = (uintptr_t)(f.stack + STACK) & ~uintptr_t(15);
    auto *sp = (void **)top;
    *--sp = nullptr;
    *--sp = (void *)&fiber_main;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f.sp = sp;
}

bool can_acquire(const fiber &f) {
    auto &e = E();
    if (f.st == status::mutex) {
        auto it = e.mutexes.find(f.wait);
        return it == e.mutexes.end() || it->second.owner < 0;
    }
    if (f.st == status::rwlock) {
        auto it = e.rwlocks.find(f.wait);
        if (it == e.rwlocks.end()) return true;
        return it->second.writer < 0 && (!f.wait_write || it->second.readers == 0);
    }
    return false;
}

bool enabled(int i) {
    auto &f = E().f[i];
    switch (f.st) {
    case status::ready: return true;
    case status::mutex: case status::rwlock: return can_acquire(f);
    case status::join: return E().f[f.join_target].st == status::finished;
    default: return false;
    }
}

int pick(int n) {
    auto &e = E();
    if (n <= 1) return 0;
    if (e.pos < e.choices.size()) {
        auto &c = e.choices[e.pos++];
        if (c.first != n) violation("internal: nondeterministic re-execution " + std::to_string(c.first) + " vs " + std::to_string(n) + " pos " + std::to_string(e.pos) + " exec " + std::to_string(vp::st().states) + " steps " + std::to_string(e.steps));
        return c.second;
    }
    e.choices.push_back({n, 0});
    ++e.pos;
    return 0;
}

void switch_to(int t) {
    auto &e = E();
    e.sched.push_back(uint8_t(t));
    if (t == e.cur) return;
    int old = e.cur;
    e.cur = t;
    e.f[t].streak = 0;
    if (T().used) set_tcb(e.f[t].tls ? e.f[t].tls : T().main);
    mc_switch(&e.f[old].sp, e.f[t].sp);
}

// Decides which thread runs next. Called by the running thread, whose status
// says whether it can go on.
void schedule(bool yielding) {
    auto &e = E();
    if (++e.steps > e.opt.max_steps) violation("livelock: execution exceeds the step bound");
    ++vp::st().progress;
    int cand[2 * MAXT]; int kind[2 * MAXT]; int n = 0; // kind 0 run, 1 spurious wake, 2 time-out
    bool cur_on = enabled(e.cur);
    bool others = false;
    for (int i = 0; i < e.nf; ++i) if (i != e.cur && enabled(i)) others = true;
    if (e.f[e.cur].streak++ > 400) yielding = true;
    if (cur_on && !(yielding && others)) { cand[n] = e.cur; kind[n++] = 0; }
    bool forced = !cur_on || yielding;
    if (forced || e.preempt_used < e.opt.preemptions) {
        for (int i = 0; i < e.nf; ++i)
            if (i != e.cur && enabled(i)) { cand[n] = i; kind[n++] = 0; }
        for (int i = 0; i < e.nf; ++i) {
            auto s = e.f[i].st;
            if ((s == status::cond || s == status::cond_timed) && e.spurious_used < e.opt.spurious) {
                cand[n] = i; kind[n++] = 1;
            } else if (s == status::cond_timed && (n == 0 || e.preempt_used < e.opt.preemptions)) {
                cand[n] = i; kind[n++] = 2;
            }
        }
    }
    // Only spurious wake-ups left does not count as progress being possible.
    bool real = cur_on;
    for (int i = 0; i < n; ++i) if (kind[i] != 1) real = true;
    if (!real) {
        bool all = true;
        for (int i = 0; i < e.nf; ++i) if (e.f[i].st != status::finished) all = false;
        if (all) {
            // Execution over: back to the explorer.
            int old = e.cur;
            if (T().used) set_tcb(T().main);
            mc_switch(&e.f[old].sp, e.main_sp);
            abort();
        }
        std::string w = "deadlock: no thread can run;";
        for (int i = 0; i < e.nf; ++i) {
            const char *s = "?";
            switch (e.f[i].st) {
            case status::ready: s = "ready"; break;
            case status::mutex: s = "waits for a mutex"; break;
            case status::rwlock: s = "waits for a shared mutex"; break;
            case status::cond: case status::cond_timed: s = "waits on a condition variable"; break;
            case status::join: s = "waits in join"; break;
            case status::finished: s = "finished"; break;
            default: break;
            }
            w += " T" + std::to_string(i) + " " + s + ";";
        }
        violation(w);
    }
    if (e.opt.delays && forced) n = std::min(n, 1 + std::max(0, e.opt.preemptions - e.preempt_used));
    int k = pick(n);
    int t = cand[k];
    if (!forced && t != e.cur) ++e.preempt_used;
    if (e.opt.delays && forced) e.preempt_used += k;
    if (kind[k] == 1) { ++e.spurious_used; e.f[t].st = status::ready; e.f[t].woken_spurious = true; }
    if (kind[k] == 2) { e.f[t].st = status::ready; e.f[t].timed_out = true; }
    switch_to(t);
}

void point_() { schedule(false); }

// ---- race detection ---------------------------------------------------------
cell &cell_of(u64 key) {
    auto &e = E();
    if (e.shadow.empty()) e.shadow.resize(1 << 14);
    if (e.shadow_used * 2 > e.shadow.size()) {
        std::vector<cell> old;
        old.swap(e.shadow);
        e.shadow.resize(old.size() * 2);
        size_t m = e.shadow.size() - 1;
        e.shadow_used = 0;
        for (auto &c : old) if (c.gen == e.gen) {
            size_t i = (c.key * 0x9E3779B97F4A7C15ull >> 20) & m;
            while (e.shadow[i].gen == e.gen) i = (i + 1) & m;
            e.shadow[i] = c;
            ++e.shadow_used;
        }
    }
    size_t m = e.shadow.size() - 1;
    size_t i = (key * 0x9E3779B97F4A7C15ull >> 20) & m;
    while (e.shadow[i].gen == e.gen && e.shadow[i].key != key) i = (i + 1) & m;
    auto &c = e.shadow[i];
    if (c.gen != e.gen) { c.gen = e.gen; c.key = key; c.n = 0; c.freed = false; ++e.shadow_used; }
    return c;
}

void access_granule(u64 g, uint8_t mask, bool write, bool atomic) {
    auto &e = E();
    auto &c = cell_of(g);
    int me = e.cur;
    auto &vc = e.f[me].vc;
    if (c.freed) violation(std::string("use after free: ") + (write ? "write to" : "read of") + " released memory by T" + std::to_string(me));
    int slot = -1;
    for (int i = 0; i < c.n; ++i) {
        auto &r = c.r[i];
        if (r.tid == me) {
            if (r.write == write && r.atomic == atomic && r.mask == mask) slot = i;
            continue;
        }
        if ((r.mask & mask) && (r.write || write) && !(r.atomic && atomic) && r.clk > vc.c[r.tid]) {
            violation(std::string("data race: ") + (write ? "write" : "read") + " by T" + std::to_string(me) +
                      " is unordered with a " + (r.write ? "write" : "read") + " by T" + std::to_string(int(r.tid)) +
                      " of the same location");
        }
    }
    if (slot < 0) {
        if (c.n < 8) slot = c.n++;
        else {
            slot = 0;
            for (int i = 0; i < c.n; ++i) if (c.r[i].clk <= vc.c[c.r[i].tid]) { slot = i; break; }
        }
    }
    c.r[slot] = {vc.c[me], uint8_t(me), mask, write, atomic};
}

void access(const void *p, size_t size, bool write, bool atomic = false) {
    auto &e = E();
    if (!e.opt.races) return;
    uintptr_t a = (uintptr_t)p, end = a + size;
    while (a < end) {
        u64 g = a >> 3;
        unsigned lo = a & 7, hi = std::min<uintptr_t>(8, lo + (end - a));
        access_granule(g, uint8_t(((1u << (hi - lo)) - 1) << lo), write, atomic);
        a = (g + 1) << 3;
    }
}

void tick() { auto &e = E(); ++e.f[e.cur].vc.c[e.cur]; }

void clear_shadow(void *p, size_t n, bool freed) {
    if (!n) return;
    for (u64 g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; ++g) {
        auto &c = cell_of(g);
        c.n = 0;
        c.freed = freed;
    }
}

bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void atomic_op(const volatile void *p, size_t size, bool load, bool store, int mo) {
    auto &e = E();
    point_();
    access((const void *)p, size, store, true);
    auto &vc = e.f[e.cur].vc;
    auto &a = e.atomics[(const void *)p];
    if (load && acq(mo)) vc.join(a);
    if (store) {
        if (!load) a.clear();
        if (rel(mo)) a.join(vc);
        tick();
    }
}

} // namespace

// ---- exploration --------------------------------------------------------------
result explore(const options &o, const std::function<void()> &body) {
    auto &e = E();
    result res;
    __libc_single_threaded = 0;
    e.opt = o;
    e.choices.clear();
    e.body = &body;
    for (;;) {
        e.rt = true;
        e.pos = 0; e.preempt_used = 0; e.spurious_used = 0; e.steps = 0; e.now = 1000000000ull;
        e.mutexes.clear(); e.rwlocks.clear(); e.atomics.clear(); e.fence.clear();
        e.trace.clear(); e.sched.clear();
        ++e.gen; e.shadow_used = 0;
        for (auto &f : e.f) {
            auto *s = f.stack;
            if (f.tls) T().release(f.tls, true);
            f = fiber{};
            f.stack = s;
        }
        e.nf = 1; e.cur = 0;
        prepare(e.f[0]);
        e.f[0].st = status::ready;
        e.f[0].vc.c[0] = 1;
        e.active = true;
        mc_switch(&e.main_sp, e.f[0].sp);
        e.active = false;
        for (void *p : e.quarantine) free(p);
        e.quarantine.clear();
        e.rt = false;
        ++res.executions;
        res.steps += e.steps;
        res.max_depth = std::max(res.max_depth, e.steps);
        vp::states(1);
        vp::transitions(e.steps);
        ++vp::st().progress;
        while (!e.choices.empty() && e.choices.back().second + 1 >= e.choices.back().first) e.choices.pop_back();
        if (e.choices.empty()) break;
        ++e.choices.back().second;
        if (o.max_executions && res.executions >= o.max_executions) { res.capped = true; break; }
    }
    return res;
}

int self() { return E().cur; }
bool in_execution() { return E().active; }

void check(bool cond, const char *fmt, ...) {
    rt_guard g;
    ++vp::st().evals;
    if (cond) return;
    char b[2000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    violation(b);
}

void log(const char *fmt, ...) {
    rt_guard g;
    char b[500];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    E().trace += "[T" + std::to_string(E().cur) + " " + b + "]";
}

int choose(int n) { rt_guard g; return pick(n); }
void advance(double s) { rt_guard g; E().now += u64(s * 1e9); }
void point() { if (!on()) return; rt_guard g; point_(); }

void raw_counter::set(long x) { v = x; }
void raw_counter::add(long x) { v = v + x; }
long raw_counter::get() { return v; }

} // namespace mc

using namespace mc;

static long live_blocks;
long mc::live() { return live_blocks; }

// ---- allocation -----------------------------------------------------------------
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (on()) { rt_guard g; ++live_blocks; clear_shadow(p, n, false); }
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
static void rel_mem(void *p) {
    if (!p) return;
    if (on()) {
        rt_guard g;
        --live_blocks;
        size_t n = malloc_usable_size(p);
        E().quarantine.push_back(p);
        access(p, 1, true);
        clear_shadow(p, n, true);
        return;
    }
    free(p);
}

void operator delete(void *p) noexcept { rel_mem(p); }
void operator delete[](void *p) noexcept { rel_mem(p); }
void operator delete(void *p, size_t) noexcept { rel_mem(p); }
void operator delete[](void *p, size_t) noexcept { rel_mem(p); }

// ---- TSan instrumentation callbacks ------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void *p) { if (on()) { rt_guard g; access(p, N, false); } } \
    void __tsan_write##N(void *p) { if (on()) { rt_guard g; access(p, N, true); } } \
    void __tsan_unaligned_read##N(void *p) { if (on()) { rt_guard g; access(p, N, false); } } \
    void __tsan_unaligned_write##N(void *p) { if (on()) { rt_guard g; access(p, N, true); } } \
    void __tsan_volatile_read##N(void *p) { if (on()) { rt_guard g; access(p, N, false); } } \
    void __tsan_volatile_write##N(void *p) { if (on()) { rt_guard g; access(p, N, true); } } \
    void __tsan_unaligned_volatile_read##N(void *p) { if (on()) { rt_guard g; access(p, N, false); } } \
    void __tsan_unaligned_volatile_write##N(void *p) { if (on()) { rt_guard g; access(p, N, true); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (on()) { rt_guard g; access(p, n, false); } }
void __tsan_write_range(void *p, unsigned long n) { if (on()) { rt_guard g; access(p, n, true); } }
void __tsan_vptr_update(void **p, void *) { if (on()) { rt_guard g; access(p, 8, true); } }
void __tsan_vptr_read(void **p) { if (on()) { rt_guard g; access(p, 8, false); } }

#define ATOMIC(BITS, T) \
    T __tsan_atomic##BITS##_load(const volatile T *p, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), true, false, mo); } return *p; } \
    void __tsan_atomic##BITS##_store(volatile T *p, T v, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), false, true, mo); } *p = v; } \
    T __tsan_atomic##BITS##_exchange(volatile T *p, T v, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), true, true, mo); } T o = *p; *p = v; return o; } \
    T __tsan_atomic##BITS##_fetch_add(volatile T *p, T v, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), true, true, mo); } T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T *p, T v, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), true, true, mo); } T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##BITS##_fetch_and(volatile T *p, T v, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), true, true, mo); } T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##BITS##_fetch_or(volatile T *p, T v, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), true, true, mo); } T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T *p, T v, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), true, true, mo); } T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##BITS##_fetch_nand(volatile T *p, T v, int mo) { if (on()) { rt_guard g; atomic_op(p, sizeof(T), true, true, mo); } T o = *p; *p = ~(o & v); return o; } \
    static bool cas##BITS(volatile T *p, T *exp, T v, int mo, int fmo) { \
        if (on()) { rt_guard g; point_(); bool ok = *p == *exp; E().opt.races = E().opt.races; \
            access((const void *)p, sizeof(T), ok, true); auto &vc = E().f[E().cur].vc; auto &a = E().atomics[(const void *)p]; \
            if (acq(ok ? mo : fmo)) vc.join(a); if (ok) { if (rel(mo)) a.join(vc); tick(); } } \
        if (*p == *exp) { *p = v; return true; } *exp = *p; return false; } \
    bool __tsan_atomic##BITS##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { return cas##BITS(p, e, v, mo, fmo); } \
    bool __tsan_atomic##BITS##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return cas##BITS(p, e, v, mo, fmo); } \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { cas##BITS(p, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    rt_guard g; auto &e = E();
    if (acq(mo)) e.f[e.cur].vc.join(e.fence);
    if (rel(mo)) { e.fence.join(e.f[e.cur].vc); tick(); }
}
void __tsan_atomic_signal_fence(int) {}

// ---- pthread --------------------------------------------------------------------
static pthread_t id_of(int i) {
    auto &e = E();
    return (pthread_t)(0x10000ul + (e.opt.id_descending ? (MAXT - i) : i + 1) * 0x100ul);
}
static int of_id(pthread_t t) {
    for (int i = 0; i < MAXT; ++i) if (pthread_equal(id_of(i), t)) return i;
    return -1;
}

pthread_t pthread_self() noexcept {
    if (g_engine && g_engine->active) return id_of(E().cur);
    return (pthread_t)0x10000ul;
}

int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) noexcept {
    auto &e = E();
    if (!e.active) { fprintf(stderr, "thread created outside an execution\n"); abort(); }
    rt_guard g;
    point_();
    if (e.nf >= MAXT) violation("too many threads");
    int i = e.nf++;
    auto &f = e.f[i];
    f.st = status::ready;
    f.fn = fn; f.arg = arg;
    f.vc = e.f[e.cur].vc;
    f.vc.c[i] = 1;
    tick();
    prepare(f);
    make_tls(f);
    *t = id_of(i);
    return 0;
}

int pthread_join(pthread_t t, void **ret) {
    auto &e = E();
    rt_guard g;
    int i = of_id(t);
    if (i < 0 || i >= e.nf || e.f[i].joined || e.f[i].detached) return EINVAL;
    auto &me = e.f[e.cur];
    me.st = status::join; me.join_target = i;
    schedule(false);
    e.f[e.cur].st = status::ready;
    e.f[i].joined = true;
    e.f[e.cur].vc.join(e.f[i].final_vc);
    if (ret) *ret = e.f[i].ret;
    return 0;
}

int pthread_detach(pthread_t t) noexcept {
    auto &e = E();
    int i = of_id(t);
    if (i < 0 || i >= e.nf) return EINVAL;
    e.f[i].detached = true;
    return 0;
}

static void lock_(const void *m) {
    auto &e = E();
    auto &me = e.f[e.cur];
    auto it = e.mutexes.find(m);
    if (it != e.mutexes.end() && it->second.owner == e.cur) violation("a thread locks a mutex it already holds");
    me.st = status::mutex; me.wait = m;
    schedule(false);
    auto &f = e.f[e.cur];
    f.st = status::ready;
    auto &mm = e.mutexes[m];
    mm.owner = e.cur;
    f.vc.join(mm.vc);
}
static void unlock_(const void *m) {
    auto &e = E();
    auto &mm = e.mutexes[m];
    if (mm.owner != e.cur) violation("a thread unlocks a mutex it does not hold");
    mm.owner = -1;
    mm.vc = e.f[e.cur].vc;
    tick();
}

int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (!on()) return 0;
    rt_guard g;
    access(m, 1, false, true);
    lock_(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (!on()) return 0;
    rt_guard g;
    access(m, 1, false, true);
    point_();
    auto &e = E();
    auto &mm = e.mutexes[m];
    if (mm.owner >= 0) return EBUSY;
    mm.owner = e.cur;
    e.f[e.cur].vc.join(mm.vc);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (!on()) return 0;
    rt_guard g;
    access(m, 1, false, true);
    unlock_(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { if (on()) { rt_guard g; E().mutexes.erase(m); } return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept { if (on()) { rt_guard g; E().mutexes.erase(m); } return 0; }

static int cond_wait_(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    auto &e = E();
    access(c, 1, false, true);
    unlock_(m);
    auto &me = e.f[e.cur];
    me.st = timed ? status::cond_timed : status::cond;
    me.wait = c;
    me.timed_out = me.woken_spurious = false;
    schedule(false);
    bool to = e.f[e.cur].timed_out;
    lock_(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { rt_guard g; return cond_wait_(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *) { rt_guard g; return cond_wait_(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *) { rt_guard g; return cond_wait_(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (!on()) return 0;
    rt_guard g;
    point_();
    access(c, 1, false, true);
    auto &e = E();
    int w[MAXT], n = 0;
    for (int i = 0; i < e.nf; ++i)
        if ((e.f[i].st == status::cond || e.f[i].st == status::cond_timed) && e.f[i].wait == c) w[n++] = i;
    if (n) e.f[w[pick(n)]].st = status::ready;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (!on()) return 0;
    rt_guard g;
    point_();
    access(c, 1, false, true);
    auto &e = E();
    for (int i = 0; i < e.nf; ++i)
        if ((e.f[i].st == status::cond || e.f[i].st == status::cond_timed) && e.f[i].wait == c) e.f[i].st = status::ready;
    return 0;
}
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t *c) noexcept {
    if (on()) {
        rt_guard g;
        auto &e = E();
        for (int i = 0; i < e.nf; ++i)
            if ((e.f[i].st == status::cond || e.f[i].st == status::cond_timed) && e.f[i].wait == c)
                violation("a condition variable is destroyed while a thread waits on it");
    }
    return 0;
}

static int rwlock_(pthread_rwlock_t *l, bool write) {
    auto &e = E();
    access(l, 1, false, true);
    auto &me = e.f[e.cur];
    me.st = status::rwlock; me.wait = l; me.wait_write = write;
    schedule(false);
    auto &f = e.f[e.cur];
    f.st = status::ready;
    auto &r = e.rwlocks[l];
    if (write) { r.writer = e.cur; f.vc.join(r.wvc); f.vc.join(r.rvc); }
    else { ++r.readers; f.vc.join(r.wvc); }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { if (!on()) return 0; rt_guard g; return rwlock_(l, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { if (!on()) return 0; rt_guard g; return rwlock_(l, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
    if (!on()) return 0;
    rt_guard g;
    auto &e = E();
    auto &r = e.rwlocks[l];
    auto &vc = e.f[e.cur].vc;
    if (r.writer == e.cur) { r.writer = -1; r.wvc = vc; r.rvc.clear(); }
    else if (r.readers > 0) { --r.readers; r.rvc.join(vc); }
    else violation("a shared mutex is unlocked by a thread that does not hold it");
    tick();
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *) noexcept { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) noexcept { if (on()) { rt_guard g; E().rwlocks.erase(l); } return 0; }

int sched_yield() noexcept { if (on()) { rt_guard g; schedule(true); } return 0; }
int nanosleep(const timespec *t, timespec *) { if (on()) { rt_guard g; E().now += u64(t->tv_sec) * 1000000000ull + u64(t->tv_nsec); schedule(true); } return 0; }
int clock_nanosleep(clockid_t, int flags, const timespec *t, timespec *) { if (on()) { rt_guard g; u64 n = u64(t->tv_sec) * 1000000000ull + u64(t->tv_nsec); if (flags) E().now = std::max(E().now, n); else E().now += n; schedule(true); } return 0; }
int usleep(useconds_t n) { if (on()) { rt_guard g; E().now += u64(n) * 1000; schedule(true); } return 0; }
int clock_gettime(clockid_t c, timespec *t) noexcept {
    if (!g_engine || !g_engine->active) return int(syscall(SYS_clock_gettime, c, t));
    t->tv_sec = time_t(E().now / 1000000000ull); t->tv_nsec = long(E().now % 1000000000ull);
    return 0;
}
int gettimeofday(timeval *t, void *) noexcept {
    if (!g_engine || !g_engine->active) return int(syscall(SYS_gettimeofday, t, nullptr));
    t->tv_sec = time_t(E().now / 1000000000ull); t->tv_usec = long(E().now % 1000000000ull) / 1000;
    return 0;
}
// Initialisation of static variables, which orders its effects before every later use.
int __cxa_guard_acquire(long long *g) {
    auto *b = (volatile uint8_t *)g;
    if (!on()) return !b[0];
    rt_guard gd; auto &e = E();
    while (b[1] && !b[0]) schedule(true); // another thread is at it
    if (b[0]) { e.f[e.cur].vc.join(e.atomics[g]); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long *g) {
    auto *b = (volatile uint8_t *)g;
    b[0] = 1; b[1] = 0;
    if (on()) { rt_guard gd; auto &e = E(); e.atomics[g].join(e.f[e.cur].vc); tick(); }
}
void __cxa_guard_abort(long long *g) { ((volatile uint8_t *)g)[1] = 0; }

void __assert_fail(const char *expr, const char *file, unsigned line, const char *func) noexcept {
    if (on()) {
        E().rt = true;
        const char *b = strrchr(file, '/');
        violation(std::string("assertion failed: ") + expr + " in " + (b ? b + 1 : file));
    }
    fprintf(stderr, "assertion failed: %s %s\n", expr, file);
    abort();
}
}
