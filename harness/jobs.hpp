// Helpers for the concurrency harnesses.
#ifndef H_JOBS_HPP
#define H_JOBS_HPP
#include "mc.hpp"
#include "vp.hpp"
#include "edyn/parallel/job.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include "edyn/parallel/job_queue.hpp"
#include "edyn/parallel/worker.hpp"
#include "edyn/parallel/atomic_counter_sync.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
#include <new>

// Storage for an object that each execution constructs anew on zeroed memory.
template<typename T>
struct fresh {
    T *p = nullptr;
    void *mem = nullptr;
    template<typename... A>
    explicit fresh(A &&...a) {
        mem = ::operator new(sizeof(T) + alignof(T));
        memset(mem, 0, sizeof(T) + alignof(T));
        p = new (mem) T(std::forward<A>(a)...);
    }
    ~fresh() { p->~T(); ::operator delete(mem); }
    T *operator->() { return p; }
    T &operator*() { return *p; }
};

// Counts completions; independent of the code under test.
struct gate {
    std::mutex m;
    std::condition_variable cv;
    int left;
    explicit gate(int n) : left(n) {}
    void done() {
        std::lock_guard<std::mutex> l(m);
        if (--left == 0) cv.notify_all();
    }
    void wait() {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return left <= 0; });
    }
};

inline void cap_note(const mc::result &r, const char *what) {
    if (r.capped) vp::st().notes.push_back(std::string(what) + ": capped, not exhaustive");
    char b[256];
    snprintf(b, sizeof b, "%s: %llu schedules, %llu steps, deepest %d", what,
             (unsigned long long)r.executions, (unsigned long long)r.steps, r.max_depth);
    vp::sample(b);
    vp::nontrivial(r.executions);
    vp::validated(r.executions);
}
#endif
