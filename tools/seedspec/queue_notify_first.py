ID = "queue_notify_first"
PROPERTY = "P03"
NEEDS = "two consumers blocked and two jobs pushed before the first consumer wakes up, the first job depending on the second"
BREAKS = "a job stays in the queue while a consumer sleeps, so jobs that depend on each other never finish"
EDITS = [("src/edyn/parallel/job_queue.cpp", """        m_jobs.push(j);
    }
    m_cv.notify_one();""", """        m_jobs.push(j);

        if (m_jobs.size() > 1) {
            return; // Consumers have already been notified.
        }
    }
    m_cv.notify_one();""")]
DEMO = r'''
#include "edyn/parallel/job_queue.hpp"
#include <atomic>
#include <chrono>
#include <thread>
#include <cstdio>
#include <cstdlib>
static std::atomic<int> second{0}, done{0};
int main() {
    static edyn::job_queue q;
    for (int i = 0; i < 2; ++i) std::thread([] { for (;;) q.pop()(); }).detach();
    edyn::job a = edyn::job::noop(), b = edyn::job::noop();
    a.func = [](edyn::job::data_type &) { while (!second.load()) std::this_thread::yield(); ++done; };
    b.func = [](edyn::job::data_type &) { second = 1; ++done; };
    for (int i = 0; i < 1000; ++i) {
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        second = 0; done = 0;
        q.push(a);
        q.push(b);
        auto t0 = std::chrono::steady_clock::now();
        while (done.load() < 2) {
            std::this_thread::yield();
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) { puts("stuck"); fflush(stdout); _Exit(1); }
        }
    }
    _Exit(0);
}
'''
