// Clock synchronisation over a network that delays, loses, duplicates and reorders, over all histories.
#include "vp.hpp"
#include "edyn/networking/util/clock_sync.hpp"
#include <cmath>
#include <string>
#include <variant>
#include <vector>
using namespace edyn;

namespace {
struct sent_log { std::vector<uint32_t> ids; void publish(const packet::edyn_packet &p) { ids.push_back(std::get<packet::time_request>(p.var).id); } };

struct flight { uint32_t id; double sent; bool answered; double stamp; int seq; };

struct world {
    clock_sync_data cs;
    double now = 10, offset = 0;      // local = remote + offset
    std::vector<flight> net;          // requests and responses under way
    int seq = 0;
    // Reference.
    bool waiting = false; uint32_t want_id = 0; int phase = 0; double t_req = 0, rtt0 = 0, stamp0 = 0;
    std::vector<double> samples; unsigned syncs = 0; double worst = 0; double last_event = 0; double delta = 0;
};

struct runner {
    sent_log log;
    std::string path;
    double rtt = 0.2;
    double D = 3;

    void bind(world &w) { w.cs.send_packet.connect<&sent_log::publish>(log); }
    void start(world &w) { bind(w); w.offset = D; }

    void requested(world &w, size_t n, int phase) {
        VP_CHECK(n == 1, "%zu requests are sent at once", n);
        auto id = log.ids.back();
        w.net.push_back({id, w.now, false, 0, w.seq++});
        w.waiting = true; w.want_id = id; w.phase = phase; w.t_req = w.now;
    }

    void check(world &w) {
        vp::states();
        VP_CHECK(w.cs.count == w.syncs, "%u synchronisations are counted instead of %u", w.cs.count, w.syncs);
        VP_CHECK(w.cs.time_delta_sample_count == w.samples.size() && w.samples.size() < 5, "%u samples are counted, %zu were taken", w.cs.time_delta_sample_count, w.samples.size());
        VP_CHECK(std::abs(w.cs.time_delta - w.delta) < 1e-9, "the estimated offset is %.12g instead of %.12g", w.cs.time_delta, w.delta);
        if (w.syncs || !w.samples.empty())
            VP_CHECK(std::abs(w.cs.time_delta - w.offset) <= w.worst / 2 + 1e-9, "the estimate %g of the offset %g is off by more than half a round trip of %g", w.cs.time_delta, w.offset, w.worst);
        else VP_CHECK(w.cs.time_delta == 0, "an offset was estimated out of nothing");
    }

    void update(world &w, double dt) {
        bind(w);
        w.now += dt;
        auto before = log.ids.size();
        update_clock_sync(w.cs, w.now, rtt);
        auto n = log.ids.size() - before;
        bool due = w.waiting ? w.now - w.t_req > rtt * 1.4 : w.samples.empty() ? w.syncs == 0 || w.now - w.last_event > w.cs.period : w.now - w.last_event > w.cs.delay;
        VP_CHECK(n == (due ? 1u : 0u), "update sent %zu requests %s", n, due ? "although one is due" : "although none is due");
        if (n) requested(w, n, 0);
        check(w);
    }
    void receive(world &w, uint32_t id, double stamp) {
        bind(w);
        auto before = log.ids.size();
        clock_sync_process_time_response(w.cs, packet::time_response{id, stamp}, w.now);
        auto n = log.ids.size() - before;
        if (!w.waiting || id != w.want_id) { VP_CHECK(n == 0, "a response nobody waits for causes a request"); check(w); return; }
        double r = w.now - w.t_req;
        if (w.phase == 0) {
            w.rtt0 = r; w.stamp0 = stamp;
            requested(w, n, 1);
        } else {
            double avg = (w.rtt0 + r) / 2, rdt = stamp - w.stamp0;
            bool reject = std::abs(w.rtt0 - r) > w.rtt0 * 0.1 || std::abs(avg - rdt) > avg * 0.1;
            bool edge = std::abs(std::abs(w.rtt0 - r) - w.rtt0 * 0.1) < 1e-9 || std::abs(std::abs(avg - rdt) - avg * 0.1) < 1e-9;
            if (edge && avg > 0) reject = n > 0; // too close to the limit to judge
            if (reject) requested(w, n, 0);
            else {
                VP_CHECK(n == 0, "an accepted sample causes %zu requests", n);
                w.waiting = false; w.last_event = w.now; w.worst = std::max(w.worst, r);
                w.samples.push_back(w.now - (stamp + r / 2));
                double sum = 0; for (double s : w.samples) sum += s;
                if (w.samples.size() == 5) { w.delta = sum / 5; w.samples.clear(); ++w.syncs; }
                else if (w.syncs == 0) w.delta = sum / double(w.samples.size());
            }
        }
        check(w);
    }
    // Whatever happened, synchronisation goes on.
    void alive(world w) {
        bind(w);
        w.now += w.cs.period + 1;
        auto before = log.ids.size();
        update_clock_sync(w.cs, w.now, rtt);
        VP_CHECK(log.ids.size() == before + 1, "synchronisation is stuck");
    }

    void explore(const world &w, int depth) {
        ++vp::st().progress;
        if (depth == 0) { alive(w); return; }
        auto len = path.size();
        auto go = [&](std::string op, auto &&f) { vp::transitions(); path += " " + op; world c = w; f(c); explore(c, depth - 1); path.resize(len); };
        for (double dt : {0.1, 0.13, 0.6}) go("update+" + std::to_string(dt).substr(0, 4), [&](world &c) { update(c, dt); });
        if (w.net.size() > 3) return;
        for (size_t i = 0; i < w.net.size(); ++i) {
            if (!w.net[i].answered) go("answer" + std::to_string(w.net[i].seq), [&](world &c) { c.net[i].answered = true; c.net[i].stamp = c.now - c.offset; });
            else {
                go("receive" + std::to_string(w.net[i].seq), [&](world &c) { auto f = c.net[i]; c.net.erase(c.net.begin() + long(i)); receive(c, f.id, f.stamp); });
                go("receive-and-keep" + std::to_string(w.net[i].seq), [&](world &c) { auto f = c.net[i]; receive(c, f.id, f.stamp); });
            }
            go("lose" + std::to_string(w.net[i].seq), [&](world &c) { c.net.erase(c.net.begin() + long(i)); });
        }
        go("forged", [&](world &c) { receive(c, c.want_id + 1, 12345); });
    }

    // One exchange of both requests with given latencies; kind of trouble.
    void round(world &w, int kind) {
        auto deliver = [&](double up, double down, bool dup) {
            auto f = w.net.back(); w.net.clear();
            w.now += up; double stamp = w.now - w.offset; w.now += down;
            receive(w, f.id, stamp);
            if (dup) { w.now += 0.001; receive(w, f.id, stamp); }
        };
        auto begin = [&] { if (!w.waiting) update(w, w.samples.empty() && w.syncs ? w.cs.period + 1 : w.cs.delay + 0.01); else { update(w, rtt * 1.5); } };
        begin();
        switch (kind) {
        case 0: deliver(0.1, 0.1, false); deliver(0.1, 0.1, false); break;          // symmetric
        case 1: deliver(0.05, 0.15, false); deliver(0.05, 0.15, false); break;      // asymmetric
        case 2: deliver(0.1, 0.1, false); deliver(0.2, 0.1, false); break;          // jitter: starts over
        case 3: w.net.clear(); break;                                               // first lost
        case 4: deliver(0.1, 0.1, false); w.net.clear(); break;                     // second lost
        case 5: deliver(0.11, 0.1, true); deliver(0.1, 0.105, true); break;         // duplicates
        case 6: deliver(0.02, 0.18, false); deliver(0.17, 0.03, false); break;      // remote interval differs: starts over
        }
    }
    void rounds(const world &w, int depth) {
        ++vp::st().progress;
        alive(w);
        if (depth == 0) return;
        auto len = path.size();
        for (int k = 0; k < 7; ++k) { vp::transitions(); path += " " + std::to_string(k); world c = w; round(c, k); rounds(c, depth - 1); path.resize(len); }
    }
};
}

VP_SCENARIO(histories) {
    // From the start, after one sample, after four samples, and after a full synchronisation.
    for (double D : {0., 3., -250.5}) for (int pre : {0, 1, 4, 5}) for (int first = 0; first < 3; ++first) {
        if (!vp::begin()) continue;
        runner r; r.D = D; r.path = "offset " + std::to_string(D) + ", " + std::to_string(pre) + " samples, first update " + std::to_string(first) + ":";
        vp::describer() = [&r] { return r.path; };
        world w; r.start(w);
        for (int i = 0; i < pre; ++i) r.round(w, i % 2);
        vp::nontrivial();
        r.update(w, first == 0 ? 0.1 : first == 1 ? 0.6 : 400);
        r.explore(w, vp::thorough() ? 8 : 7);
        vp::describer() = nullptr;
    }
}
VP_SCENARIO(rounds) {
    for (double D : {0., 3., -250.5}) for (int a = 0; a < 7; ++a) for (int b = 0; b < 7; ++b) {
        if (!vp::begin()) continue;
        runner r; r.D = D; r.path = "offset " + std::to_string(D) + ", rounds " + std::to_string(a) + " " + std::to_string(b);
        vp::describer() = [&r] { return r.path; };
        world w; r.start(w); vp::nontrivial();
        r.round(w, a); r.round(w, b);
        r.rounds(w, vp::thorough() ? 6 : 5);
        vp::describer() = nullptr;
    }
}
