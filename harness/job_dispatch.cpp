// Every job handed to the dispatcher runs exactly once, whatever the schedule.
#include "jobs.hpp"
using namespace edyn;

namespace {
struct rec {
    mc::raw_counter runs;
    long payload = 0;   // written by the submitter, plain
    long result = 0;    // written by the job, plain
    gate *g = nullptr;
    job_dispatcher *disp = nullptr;
    rec *nested = nullptr;
};

void job_body(job::data_type &data) {
    rec *r;
    memcpy(&r, data.data(), sizeof r);
    // Payload bytes travel with the job.
    bool intact = true;
    for (size_t i = sizeof(rec *); i < data.size(); ++i) intact = intact && data[i] == uint8_t(i * 7 + 1);
    mc::check(intact, "job data does not arrive intact");
    r->runs.add(1);
    mc::check(r->runs.get() == 1, "a job runs twice");
    mc::check(r->payload == 42, "a job does not see what was written before it was submitted");
    r->result = 7;
    if (r->nested) {
        job j;
        memcpy(j.data.data(), &r->nested, sizeof(rec *));
        for (size_t i = sizeof(rec *); i < j.data.size(); ++i) j.data[i] = uint8_t(i * 7 + 1);
        j.func = &job_body;
        r->disp->async(j);
    }
    r->g->done();
}

job make(rec *r) {
    job j;
    memcpy(j.data.data(), &r, sizeof r);
    for (size_t i = sizeof(rec *); i < j.data.size(); ++i) j.data[i] = uint8_t(i * 7 + 1);
    j.func = &job_body;
    return j;
}

struct cfg { int workers, submitters, jobs; bool nested; int pb; int sp; bool desc; bool main_first; };

void body(const cfg &c) {
    {
        fresh<job_dispatcher> d;
        d->start(c.workers);
        mc::check(d->running() && d->num_workers() == size_t(c.workers), "the dispatcher does not report its workers");
        int n = c.submitters * c.jobs;
        std::vector<std::unique_ptr<rec>> recs;
        int total = c.nested ? 2 * n : n;
        gate g(total);
        for (int i = 0; i < total; ++i) {
            recs.push_back(std::make_unique<rec>());
            recs[i]->g = &g;
            recs[i]->disp = &*d;
        }
        if (c.nested) for (int i = 0; i < n; ++i) { recs[i]->nested = recs[n + i].get(); recs[n + i]->payload = 42; }
        auto submit = [&](int s) {
            for (int k = 0; k < c.jobs; ++k) {
                auto *r = recs[s * c.jobs + k].get();
                r->payload = 42;
                d->async(make(r));
            }
        };
        std::vector<std::thread> ts;
        for (int s = 1; s < c.submitters; ++s) ts.emplace_back(submit, s);
        submit(0);
        g.wait();
        for (int i = 0; i < total; ++i) {
            mc::check(recs[i]->runs.get() == 1, "a job submitted to a running dispatcher does not run exactly once");
            mc::check(recs[i]->result == 7, "the effect of a job is not visible after its completion");
        }
        for (auto &t : ts) t.join();
        d->stop();
        mc::check(!d->running() && d->num_workers() == 0, "a stopped dispatcher still reports workers");
    }
}

void go(const cfg &c) {
    if (!vp::begin()) return;
    vp::describe("workers=%d submitters=%d jobs=%d nested=%d preemptions=%d spurious=%d ids=%s", c.workers, c.submitters, c.jobs, c.nested, c.pb, c.sp, c.desc ? "desc" : "asc");
    mc::options o;
    o.preemptions = c.pb;
    o.spurious = c.sp;
    o.id_descending = c.desc;
    auto r = mc::explore(o, [&] { body(c); });
    cap_note(r, vp::st().desc);
}
}

VP_SCENARIO(exactly_once) {
    bool t = vp::thorough();
    go({2, 3, 1, false, t ? 3 : 2, 0, false});
    go({2, 2, 1, false, t ? 4 : 3, 0, true});
    go({2, 2, 2, false, t ? 3 : 2, 0, false});
    go({2, 2, 1, false, t ? 3 : 1, 1, false});
    go({3, 2, 2, false, 1, 0, false});
    go({2, 1, 2, false, t ? 4 : 3, 0, false});
    go({2, 2, 1, true, t ? 3 : 2, 0, true});
    go({1, 2, 2, false, t ? 4 : 3, 0, false});
    go({1, 1, 3, false, t ? 5 : 3, 0, false});
    go({2, 1, 2, true, t ? 3 : 2, 0, false});
    go({1, 1, 2, true, t ? 5 : 3, 0, false});
    go({1, 1, 2, false, 2, 2, false});
    if (t) {
        go({2, 3, 1, false, 3, 0, true});
        go({3, 3, 2, false, 1, 0, false});
        go({3, 2, 1, true, 2, 0, false});
    }
}
