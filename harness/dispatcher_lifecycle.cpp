// Starting and stopping the dispatcher terminates under every schedule; after
// stop returns nothing runs anymore.
#include "jobs.hpp"
#include "edyn/context/start_thread.hpp"
using namespace edyn;

namespace {
struct rec {
    mc::raw_counter runs, stopped, done_order;
    long effect = 0;
    std::mutex m;
    std::condition_variable cv;
    bool flag = false;
};

struct slot { rec *r; int kind; };

void job_body(job::data_type &data) {
    slot s;
    memcpy(&s, data.data(), sizeof s);
    s.r->runs.add(1);
    mc::check(s.r->stopped.get() == 0, "a job runs after stop has returned");
    mc::check(s.r->runs.get() == 1, "a job runs twice");
    s.r->effect = 5;
    if (s.kind == 1) { std::lock_guard<std::mutex> l(s.r->m); s.r->flag = true; s.r->cv.notify_all(); }
}

job make(rec *r, int kind) {
    job j;
    slot s{r, kind};
    memcpy(j.data.data(), &s, sizeof s);
    j.func = &job_body;
    return j;
}

struct cfg { int workers, jobs; bool await_first; int rounds; bool dtor; int pb; };

void body(const cfg &c) {
    std::vector<std::unique_ptr<rec>> recs;
    {
        fresh<job_dispatcher> d;
        mc::check(!d->running(), "a dispatcher that was not started says it is running");
        for (int round = 0; round < c.rounds; ++round) {
            std::vector<rec *> mine;
            d->start(c.workers);
            mc::check(d->running() && d->num_workers() == size_t(c.workers), "the dispatcher does not report its workers");
            for (int i = 0; i < c.jobs; ++i) {
                recs.push_back(std::make_unique<rec>());
                mine.push_back(recs.back().get());
                bool aw = c.await_first && i == 0;
                d->async(make(mine.back(), aw));
                if (aw) {
                    std::unique_lock<std::mutex> l(mine[0]->m);
                    mine[0]->cv.wait(l, [&] { return mine[0]->flag; });
                }
            }
            if (c.dtor && round + 1 == c.rounds) break;
            d->stop();
            mc::check(!d->running() && d->num_workers() == 0, "a stopped dispatcher still reports workers");
            for (auto *r : mine) {
                r->stopped.set(1);
                mc::check(r->runs.get() <= 1, "a job runs twice");
                if (r->runs.get()) mc::check(r->effect == 5, "the effect of a job is not visible after stop");
            }
            if (c.await_first) mc::check(mine[0]->runs.get() == 1, "a completed job is not recorded");
        }
    }
    for (auto &r : recs) {
        r->stopped.set(1);
        if (r->runs.get()) mc::check(r->effect == 5, "the effect of a job is not visible after destruction");
    }
}

void go(const cfg &c) {
    if (!vp::begin()) return;
    vp::describe("workers=%d jobs=%d await_first=%d rounds=%d destructor=%d preemptions=%d", c.workers, c.jobs, c.await_first, c.rounds, c.dtor, c.pb);
    mc::options o;
    o.preemptions = c.pb;
    auto r = mc::explore(o, [&] { body(c); });
    cap_note(r, vp::st().desc);
}
}

VP_SCENARIO(start_stop) {
    bool t = vp::thorough();
    for (int dtor = 0; dtor < 2; ++dtor) {
        go({2, 1, false, 1, bool(dtor), t ? 4 : 3});
        go({2, 2, false, 1, bool(dtor), t ? 3 : 2});
        go({2, 1, false, 2, bool(dtor), t ? 3 : 2});
        go({3, 1, false, 1, bool(dtor), t ? 2 : 1});
        go({2, 2, true, 1, bool(dtor), t ? 3 : 2});
        go({1, 0, false, 1, bool(dtor), 4});
        go({1, 1, false, 1, bool(dtor), 4});
        go({1, 2, false, 1, bool(dtor), 4});
        go({1, 1, false, 2, bool(dtor), t ? 5 : 3});
        go({2, 0, false, 1, bool(dtor), t ? 4 : 3});
        go({1, 2, true, 2, bool(dtor), 2});
        go({2, 0, false, 2, bool(dtor), 2});
    }
}

// A worker driven by hand: once() drains the queue, size() counts what is left.
VP_SCENARIO(worker_once) {
    for (int n = 0; n <= 4; ++n) for (int pushers = 1; pushers <= 2; ++pushers) {
        if (!vp::begin()) continue;
        vp::describe("worker.once with %d jobs from %d threads", n, pushers);
        mc::options o; o.preemptions = 2;
        auto r = mc::explore(o, [&] {
            fresh<worker> w;
            std::vector<std::unique_ptr<rec>> recs;
            for (int i = 0; i < n * pushers; ++i) recs.push_back(std::make_unique<rec>());
            std::vector<std::thread> ts;
            for (int p = 1; p < pushers; ++p) ts.emplace_back([&, p] { for (int i = 0; i < n; ++i) w->push_job(make(recs[p * n + i].get(), 0)); });
            for (int i = 0; i < n; ++i) w->push_job(make(recs[i].get(), 0));
            w->once();
            for (int i = 0; i < n; ++i) mc::check(recs[i]->runs.get() == 1, "a queued job is not run by once()");
            for (auto &t : ts) t.join();
            long left = 0;
            for (auto &x : recs) left += x->runs.get() == 0;
            mc::check(long(w->size()) == left, "size() is not the number of jobs left");
            w->once();
            mc::check(w->size() == 0, "size() is not zero after all jobs have run");
            for (auto &x : recs) mc::check(x->runs.get() == 1, "a queued job is not run exactly once");
        });
        cap_note(r, vp::st().desc);
    }
}

// The default way of starting a background thread runs the function once with its argument.
VP_SCENARIO(background_thread) {
    for (int n = 1; n <= 2; ++n) {
        if (!vp::begin()) continue;
        vp::describe("start_thread_func_default x%d", n);
        struct arg { gate *g; mc::raw_counter runs; int plain = 0; int out = 0; };
        mc::options o; o.preemptions = 3;
        auto r = mc::explore(o, [&] {
            gate g(n);
            std::vector<std::unique_ptr<arg>> as;
            for (int i = 0; i < n; ++i) {
                as.push_back(std::make_unique<arg>());
                as[i]->g = &g; as[i]->plain = 9;
                start_thread_func_default([](void *p) {
                    auto *a = static_cast<arg *>(p);
                    a->runs.add(1);
                    mc::check(a->plain == 9, "a background thread does not see its argument");
                    a->out = 3;
                    a->g->done();
                }, as[i].get());
            }
            g.wait();
            // The last thread still holds the gate's mutex while notifying.
            { std::lock_guard<std::mutex> l(g.m); }
            for (auto &a : as) mc::check(a->runs.get() == 1 && a->out == 3, "a background thread does not run its function exactly once");
        });
        cap_note(r, vp::st().desc);
    }
}
