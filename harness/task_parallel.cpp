// Parallel tasks: every index of the range is processed exactly once, and completion follows all of them.
#include "jobs.hpp"
#include "edyn/context/task.hpp"
#include <entt/signal/delegate.hpp>
using namespace edyn;
namespace {
struct work {
    long in[8] = {}, out[8] = {};        // plain: written by the caller, by the workers
    mc::raw_counter runs[8], completions;
    int size = 0; long sum = 0; gate *g = nullptr;
    void run(unsigned start, unsigned end) {
        mc::check(start < end && end <= unsigned(size), "a task is given the range [%u, %u) of %d", start, end, size);
        for (unsigned i = start; i < end; ++i) {
            runs[i].add(1); mc::check(runs[i].get() == 1, "index %u is processed twice", i);
            mc::check(completions.get() == 0, "index %u is processed after completion", i);
            mc::check(in[i] == long(i) + 1, "a task does not see what was written before it was enqueued");
            out[i] = 10 * in[i];
        }
    }
    void done() {
        completions.add(1); mc::check(completions.get() == 1, "completion is called twice");
        for (int i = 0; i < size; ++i) { mc::check(runs[i].get() == 1, "completion is called before index %d is processed", i); sum += out[i]; }
        g->done();
    }
    void verify() { for (int i = 0; i < size; ++i) { mc::check(runs[i].get() == 1, "index %d is processed %ld times", i, runs[i].get()); mc::check(out[i] == 10 * (i + 1), "the effect on index %d is not visible", i); } }
};
struct cfg { int workers; std::vector<int> sizes; bool wait, completion; int callers, pb, sp; };
void body(const cfg &c) {
    // The global dispatcher, made anew for each execution.
    auto &d = job_dispatcher::global();
    d.~job_dispatcher(); memset((void *)&d, 0, sizeof d); new (&d) job_dispatcher();
    long before = mc::live();
    d.start(c.workers);
    {
        int n = int(c.sizes.size()) * c.callers; std::vector<std::unique_ptr<work>> ws; gate g(n);
        for (int i = 0; i < n; ++i) { ws.push_back(std::make_unique<work>()); ws[i]->size = c.sizes[i % c.sizes.size()]; ws[i]->g = &g; }
        auto call = [&](int who) {
            for (size_t k = 0; k < c.sizes.size(); ++k) {
                auto &w = *ws[who * c.sizes.size() + k];
                for (int i = 0; i < w.size; ++i) w.in[i] = i + 1;
                auto task = task_delegate_t(entt::connect_arg_t<&work::run>{}, w);
                if (c.wait) { enqueue_task_wait_default(task, unsigned(w.size)); w.verify(); }
                else enqueue_task_default(task, unsigned(w.size), c.completion ? task_completion_delegate_t(entt::connect_arg_t<&work::done>{}, w) : task_completion_delegate_t{});
            }
        };
        std::vector<std::thread> ts; for (int i = 1; i < c.callers; ++i) ts.emplace_back(call, i);
        call(0);
        if (!c.wait && c.completion) {
            g.wait();
            for (auto &w : ws) { mc::check(w->completions.get() == 1, "completion is not called exactly once"); w->verify(); long s = 0; for (int i = 0; i < w->size; ++i) s += 10 * (i + 1); mc::check(w->sum == s, "completion does not see the effects of all workers"); }
        }
        for (auto &t : ts) t.join();
        // Lets the workers finish what is left: a yielding thread runs again only after the others
        // blocked or were preempted, which the bound limits.
        for (int i = 0; i < c.workers + c.callers + c.pb + 2; ++i) std::this_thread::yield();
        d.stop();
        if (!c.wait) for (auto &w : ws) { for (int i = 0; i < w->size; ++i) mc::check(w->runs[i].get() == 1, "index %d is not processed exactly once", i); }
    }
    d.~job_dispatcher(); memset((void *)&d, 0, sizeof d); new (&d) job_dispatcher();
    mc::check(mc::live() <= before, "%ld blocks of memory are not released", mc::live() - before);
}
void go(const cfg &c) {
    if (!vp::begin()) return;
    job_dispatcher::global();
    std::string s; for (int n : c.sizes) s += std::to_string(n) + " ";
    vp::describe("%s, %d workers, sizes %s, %d callers, completion %d, preemptions %d spurious %d", c.wait ? "wait" : "async", c.workers, s.c_str(), c.callers, c.completion, c.pb, c.sp);
    mc::options o; o.preemptions = c.pb; o.spurious = c.sp;
    auto r = mc::explore(o, [&] { body(c); });
    cap_note(r, vp::st().desc);
}
}
VP_SCENARIO(tasks_waited_for) {
    bool t = vp::thorough();
    for (int size : {0, 1, 2, 3, 4, 5}) for (int workers : {1, 2}) go({workers, {size}, true, false, 1, workers == 1 ? (t ? 4 : 3) : (t ? 3 : 2), 0});
    go({1, {2}, true, false, 1, 2, 1});
    go({3, {4}, true, false, 1, 1, 0});
    go({3, {8}, true, false, 1, 1, 0});
    go({2, {2, 3}, true, false, 1, t ? 2 : 1, 0});
    go({2, {2}, true, false, 2, t ? 2 : 1, 0});
    go({1, {3}, true, false, 2, t ? 3 : 2, 0});
}
VP_SCENARIO(tasks_completed) {
    bool t = vp::thorough();
    for (int size : {0, 1, 2, 3, 4, 5}) for (int workers : {1, 2}) go({workers, {size}, false, true, 1, workers == 1 ? (t ? 4 : 3) : (t ? 3 : 2), 0});
    go({3, {4}, false, true, 1, 1, 0});
    go({3, {8}, false, true, 1, 1, 0});
    go({2, {3, 2}, false, true, 1, t ? 2 : 1, 0});
    go({2, {2}, false, true, 2, t ? 2 : 1, 0});
    go({1, {1}, false, true, 2, t ? 3 : 2, 1});
}
VP_SCENARIO(tasks_without_completion) {
    for (int size : {0, 1, 2, 3}) for (int workers : {1, 2}) go({workers, {size}, false, false, 1, 1, 0});
}
