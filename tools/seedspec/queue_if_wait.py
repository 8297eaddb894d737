ID = "queue_if_wait"
PROPERTY = "P03"
NEEDS = "another consumer takes the job between the notification and the wake-up of a blocked consumer, or a spurious wake-up"
BREAKS = "a blocked consumer pops from an empty queue and runs a job that was never pushed"
EDITS = [("src/edyn/parallel/job_queue.cpp",
"""    m_cv.wait(lock, [&]() {
        return !m_jobs.empty();
    });
""",
"""    if (m_jobs.empty()) {
        m_cv.wait(lock);
    }
""")]
DEMO = r'''
#include "edyn/parallel/job_queue.hpp"
#include <atomic>
#include <thread>
#include <cstdio>
#include <cstdlib>
// A consumer blocks; the main thread pushes a job and takes it back at once. Whenever it
// succeeds the consumer must go on waiting.
int main() {
    static edyn::job_queue q;
    static std::atomic<int> popped{0};
    int taken = 0, pushed = 0;
    std::thread([] { for (;;) { q.pop(); ++popped; } }).detach();
    edyn::job j = edyn::job::noop();
    for (int i = 0; i < 3000; ++i) {
        std::this_thread::sleep_for(std::chrono::microseconds(50));
        q.push(edyn::job::noop()); ++pushed;
        if (q.try_pop(j)) ++taken;
        if (popped.load() + taken > pushed) { puts("more popped than pushed"); _Exit(1); }
    }
    std::this_thread::sleep_for(std::chrono::milliseconds(200));
    printf("pushed %d popped %d taken %d\n", pushed, popped.load(), taken);
    _Exit(popped.load() + taken == pushed ? 0 : 1);
}
'''
