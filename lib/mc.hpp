// Systematic exploration of thread interleavings of real, unmodified C++ code.
//
// The code under test is compiled with -fsanitize=thread (instrumentation only)
// and linked against mc.cpp instead of the TSan runtime. mc.cpp supplies the
// instrumentation callbacks and the pthread functions, runs every thread as a
// fiber, and decides at every visible operation (atomic access, mutex, condition
// variable, thread create/join) which thread runs next. explore() re-executes the
// body until every schedule within the bounds has been run. Every execution is
// also checked for data races (vector clocks that honour the declared memory
// orders), use after free, and deadlock.
#ifndef MC_HPP
#define MC_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace mc {

struct options {
    int preemptions = 2;        // bound on preemptive context switches per execution
    bool delays = false;        // the bound is on all deviations from running the first thread that can run, not just preemptions
    int spurious = 0;           // bound on spurious condition variable wake-ups per execution
    int max_steps = 20000;      // visible operations per execution before "livelock"
    bool id_descending = false; // order of thread ids relative to creation order
    uint64_t max_executions = 0; // 0: no cap. A capped run is reported as such.
    bool races = true;
};

struct result {
    uint64_t executions = 0, steps = 0;
    int max_depth = 0;
    bool capped = false;
};

result explore(const options &, const std::function<void()> &body);

// To be used inside a body.
int self();                                   // index of the running thread
void check(bool cond, const char *fmt, ...);  // violation if false
void log(const char *fmt, ...);               // appended to the trace of this execution
int choose(int n);                            // enumerated nondeterministic choice in [0, n)
void point();                                 // an extra scheduling point
bool in_execution();
void advance(double seconds);                 // time passes only by this and by sleeping
long live();                                  // blocks allocated minus blocks released by executions

// A counter invisible to race detection and not a scheduling point.
struct raw_counter {
    volatile long v = 0;
    void set(long x);
    void add(long x);
    long get();
};

}
#endif
