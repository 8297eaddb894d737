// The job queue is a linearizable FIFO: nothing lost, duplicated or reordered, and a
// blocked consumer is always woken.
#include "jobs.hpp"
#include <deque>
using namespace edyn;

namespace {
job make(uint32_t tag) {
    job j;
    for (size_t i = 0; i < j.data.size(); ++i) j.data[i] = uint8_t(tag * 31 + i);
    memcpy(j.data.data(), &tag, sizeof tag);
    j.func = [](job::data_type &) {};
    return j;
}
uint32_t tag(const job &j) { uint32_t t; memcpy(&t, j.data.data(), sizeof t); return t; }
bool same(const job &j, uint32_t t) { auto m = make(t); return m.data == j.data; }

struct cfg { int prod, per, cons_block, cons_try; int pb, sp; };

void body(const cfg &c) {
    fresh<job_queue> q;
    int total = c.prod * c.per;
    std::vector<mc::raw_counter> seen(total);
    std::vector<std::vector<uint32_t>> got(c.cons_block + c.cons_try);
    std::vector<std::thread> ts;
    for (int p = 0; p < c.prod; ++p) ts.emplace_back([&, p] { for (int k = 0; k < c.per; ++k) q->push(make(p * 100 + k)); });
    auto take = [&](int who, const job &j) {
        auto t = tag(j);
        mc::check(same(j, t), "a popped job is not the one pushed");
        got[who].push_back(t);
    };
    // Blocking consumers share all items not taken by the try consumers.
    int share = total / std::max(1, c.cons_block);
    for (int i = 0; i < c.cons_block; ++i) ts.emplace_back([&, i] { for (int k = 0; k < share; ++k) take(i, q->pop()); });
    for (int i = 0; i < c.cons_try; ++i) ts.emplace_back([&, i] {
        for (int k = 0; k < c.per; ++k) { job j; auto n = q->size(); mc::check(n <= size_t(total), "size() reports more than was pushed"); if (q->try_pop(j)) take(c.cons_block + i, j); }
    });
    for (auto &t : ts) t.join();
    int rest = 0;
    got.emplace_back();
    { job j; while (q->try_pop(j)) { take(int(got.size()) - 1, j); ++rest; mc::check(rest <= total, "the queue does not drain"); } }
    mc::check(q->size() == 0, "an emptied queue has a size");
    std::vector<int> cnt(1000, 0);
    for (auto &g : got) {
        std::vector<int> last(c.prod, -1);
        for (auto t : g) {
            ++cnt[t];
            int p = t / 100, k = t % 100;
            mc::check(p < c.prod && k < c.per, "an unknown job is popped");
            mc::check(k > last[p], "jobs of one producer are popped out of order by one consumer");
            last[p] = k;
        }
    }
    for (int p = 0; p < c.prod; ++p) for (int k = 0; k < c.per; ++k) mc::check(cnt[p * 100 + k] == 1, "a pushed job is not popped exactly once");
}

void go(const cfg &c) {
    if (!vp::begin()) return;
    vp::describe("producers=%d x%d blocking=%d try=%d preemptions=%d spurious=%d", c.prod, c.per, c.cons_block, c.cons_try, c.pb, c.sp);
    mc::options o; o.preemptions = c.pb; o.spurious = c.sp;
    auto r = mc::explore(o, [&] { body(c); });
    cap_note(r, vp::st().desc);
}
}

VP_SCENARIO(concurrent) {
    bool t = vp::thorough();
    go({2, 1, 2, 0, t ? 4 : 2, 0});
    go({2, 2, 1, 0, t ? 3 : 2, 0});
    go({1, 2, 2, 0, t ? 4 : 3, 0});
    go({1, 2, 1, 0, t ? 5 : 4, 0});
    go({2, 2, 2, 0, t ? 2 : 1, 0});
    go({1, 2, 2, 0, 2, 1});
    go({1, 2, 1, 0, 2, 2});
    go({2, 2, 0, 1, t ? 3 : 2, 0});
    go({1, 3, 0, 2, t ? 3 : 2, 0});
    go({2, 1, 0, 2, 2, 0});
}

// All sequences of push / try_pop / pop (when not empty) / size against a reference queue.
VP_SCENARIO(sequences) {
    const int depth = vp::thorough() ? 11 : 8;
    int total = 1;
    for (int i = 0; i < depth; ++i) total *= 4;
    for (int code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        job_queue q;
        std::deque<uint32_t> model;
        uint32_t next = 1;
        int c = code;
        vp::states();
        for (int i = 0; i < depth; ++i, c /= 4) {
            vp::transitions();
            switch (c % 4) {
            case 0: q.push(make(next)); model.push_back(next++); break;
            case 1: {
                job j = make(777);
                bool ok = q.try_pop(j);
                VP_CHECK(ok == !model.empty(), "try_pop result is wrong (sequence %d, step %d)", code, i);
                if (ok) { VP_CHECK(same(j, model.front()), "try_pop is not first in first out (sequence %d, step %d)", code, i); model.pop_front(); }
                else VP_CHECK(same(j, 777), "a failed try_pop changes its argument (sequence %d)", code);
                break; }
            case 2: if (!model.empty()) {
                auto j = q.pop();
                VP_CHECK(same(j, model.front()), "pop is not first in first out (sequence %d, step %d)", code, i);
                model.pop_front();
                } break;
            case 3: VP_CHECK(q.size() == model.size(), "size is wrong (sequence %d, step %d)", code, i); break;
            }
        }
        VP_CHECK(q.size() == model.size(), "final size is wrong (sequence %d)", code);
    }
}

// Long queues, so that storage is taken and released while jobs pass through: every filling, then every pattern of three
// operations repeated until it is empty. Runs under the memory monitor of the scheduler.
VP_SCENARIO(long_histories) {
    for (int fill = 0; fill <= (vp::thorough() ? 70 : 40); ++fill) for (int pat = 0; pat < 27; ++pat) {
        if (!vp::begin()) continue;
        vp::describe("%d jobs pushed, pattern %d", fill, pat);
        mc::options o; o.preemptions = 0;
        mc::explore(o, [&] {
            fresh<job_queue> q; std::deque<uint32_t> model; uint32_t next = 1;
            for (int i = 0; i < fill; ++i) { q->push(make(next)); model.push_back(next++); }
            for (int i = 0, p = pat; i < 3 * 45 && (!model.empty() || i < 6); ++i, p = i % 3 ? p / 3 : pat) {
                if (p % 3 == 0) { if (model.empty()) continue; auto j = q->pop(); mc::check(same(j, model.front()), "pop is not first in first out"); model.pop_front(); }
                else if (p % 3 == 1) { job j; bool ok = q->try_pop(j); mc::check(ok == !model.empty(), "try_pop result is wrong"); if (ok) { mc::check(same(j, model.front()), "try_pop is not first in first out"); model.pop_front(); } }
                else { q->push(make(next)); model.push_back(next++); }
                mc::check(q->size() == model.size(), "size is wrong");
            }
            while (!model.empty()) { auto j = q->pop(); mc::check(same(j, model.front()), "pop is not first in first out"); model.pop_front(); }
        });
        vp::states();
    }
}
