// wait() returns only when every expected decrement has happened, always returns then,
// and the counter may be destroyed right after it.
#include "jobs.hpp"
using namespace edyn;

namespace {
struct cfg { int n; bool main_decrements; bool inner_jobs; int pb, sp; };
void go(const cfg &c) {
    if (!vp::begin()) return;
    vp::describe("count=%d main_decrements=%d dispatcher=%d preemptions=%d spurious=%d", c.n, c.main_decrements, c.inner_jobs, c.pb, c.sp);
    mc::options o; o.preemptions = c.pb; o.spurious = c.sp;
    auto r = mc::explore(o, [&] {
        mc::raw_counter done;
        std::vector<int> out(c.n, 0);
        std::vector<std::thread> ts;
        {
            fresh<atomic_counter_sync> s(size_t(c.n));
            int first = c.main_decrements ? 1 : 0;
            for (int i = first; i < c.n; ++i) ts.emplace_back([&, i, p = s.p] { out[i] = 1; done.add(1); p->decrement(); });
            if (c.main_decrements) { out[0] = 1; done.add(1); s->decrement(); }
            s->wait();
            mc::check(done.get() == c.n, "wait returns before the count reached zero");
            for (int i = 0; i < c.n; ++i) mc::check(out[i] == 1, "work done before a decrement is not visible after wait");
            if (c.inner_jobs) { s->wait(); }
        } // destroyed while the last decrementing thread may still be inside
        for (auto &t : ts) t.join();
    });
    cap_note(r, vp::st().desc);
}
}

VP_SCENARIO(wait_all) {
    bool t = vp::thorough();
    for (int md = 0; md < 2; ++md) for (int again = 0; again < 2; ++again) {
        go({1, bool(md), bool(again), 4, 1});
        go({2, bool(md), bool(again), t ? 5 : 4, 0});
        go({2, bool(md), bool(again), 3, 1});
        go({3, bool(md), bool(again), t ? 4 : 2, 0});
        if (t) go({4, bool(md), bool(again), 2, 0});
    }
}
