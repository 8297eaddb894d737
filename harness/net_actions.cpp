// Action history: every action is taken over exactly once, in order, whatever sequence of
// overlapping snapshots arrives; and the bookkeeping of recently modified components.
#include "vp.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/comp/action_list.hpp"
#include "edyn/comp/merge_component.hpp"
#include "edyn/networking/comp/discontinuity.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include <map>
#include <vector>
#include <string>
using namespace edyn;

namespace {
action_history::entry make(int t) { return {double(t), uint8_t(t * 3), std::vector<uint8_t>{uint8_t(t), uint8_t(t + 1)}}; }

bool intact(const action_history::entry &e) {
    int t = int(e.timestamp);
    return e.action_index == uint8_t(t * 3) && e.data == std::vector<uint8_t>{uint8_t(t), uint8_t(t + 1)};
}

// A client produces actions at times 1..N and sends its history [first, last]; the packets
// may be lost or arrive with any overlap. The server merges, executes what is due and
// erases it. Operations: client acts; client drops old entries; client sends (arrives or
// is lost); server executes up to a time.
struct world {
    action_history client, server;
    int now = 0;
    std::vector<int> executed;
    int sent_max = 0;     // newest action that has reached the server
    action_history delayed;   // a packet still on its way
};

struct walker {
    std::string path;
    std::vector<int> expected_received;

    void verify(const world &w, const std::vector<int> &received) {
        vp::states();
        // executed + pending == received, in order, without duplicates
        std::vector<int> all = w.executed;
        for (auto &e : w.server.entries) { all.push_back(int(e.timestamp)); VP_CHECK(intact(e), "an action's content changed"); }
        VP_CHECK(all == received, "actions taken over by the receiver differ from those that arrived for the first time");
    }

    void explore(const world &w, const std::vector<int> &received, int depth) {
        ++vp::st().progress;
        verify(w, received);
        if (!depth) return;
        auto len = path.size();
        { // client performs an action
            vp::transitions();
            auto w2 = w; ++w2.now; w2.client.entries.push_back(make(w2.now));
            path += " act"; explore(w2, received, depth - 1); path.resize(len);
        }
        if (!w.client.entries.empty()) {
            { // packet arrives
                vp::transitions();
                auto w2 = w; auto r2 = received;
                for (auto &e : w.client.entries) if (int(e.timestamp) > w.sent_max) r2.push_back(int(e.timestamp));
                w2.sent_max = std::max(w.sent_max, int(w.client.entries.back().timestamp));
                w2.server.merge(w2.client);
                path += " deliver"; explore(w2, r2, depth - 1); path.resize(len);
            }
            if (w.delayed.empty()) { // packet is sent but delayed: it may overtake nothing, be overtaken, or never arrive
                vp::transitions();
                auto w2 = w; w2.delayed.entries = w.client.entries;
                path += " send"; explore(w2, received, depth - 1); path.resize(len);
            }
            for (int k = 1; k <= 2; ++k) { // client forgets everything before the k-th newest
                int t = w.now - k + 1;
                if (t <= int(w.client.entries.front().timestamp)) continue;
                vp::transitions();
                auto w2 = w; w2.client.erase_until(t);
                std::vector<int> want;
                for (auto &e : w.client.entries) if (e.timestamp >= t) want.push_back(int(e.timestamp));
                std::vector<int> got;
                for (auto &e : w2.client.entries) got.push_back(int(e.timestamp));
                VP_CHECK(want == got, "erase_until(%d) removes the wrong entries", t);
                path += " forget<" + std::to_string(t); explore(w2, received, depth - 1); path.resize(len);
            }
        }
        if (!w.delayed.empty()) { // the delayed packet arrives, maybe a second time
            for (int again = 0; again < 2; ++again) {
                vp::transitions();
                auto w2 = w; auto r2 = received;
                for (auto &e : w.delayed.entries) if (int(e.timestamp) > w.sent_max) r2.push_back(int(e.timestamp));
                w2.sent_max = std::max(w.sent_max, int(w.delayed.entries.back().timestamp));
                w2.server.merge(w.delayed);
                if (!again) w2.delayed.entries.clear();
                path += again ? " duplicate" : " arrive"; explore(w2, r2, depth - 1); path.resize(len);
            }
        }
        if (!w.server.entries.empty()) { // server executes the oldest / everything
            for (int all = 0; all < 2; ++all) {
                vp::transitions();
                auto w2 = w;
                int upto = all ? int(w.server.entries.back().timestamp) + 1 : int(w.server.entries.front().timestamp) + 1;
                for (auto &e : w.server.entries) if (e.timestamp < upto) w2.executed.push_back(int(e.timestamp));
                w2.server.erase_until(upto);
                path += all ? " execute_all" : " execute_one"; explore(w2, received, depth - 1); path.resize(len);
            }
        }
    }
};
}

VP_SCENARIO(exactly_once) {
    int d = vp::thorough() ? 11 : 9;
    // Shard on the first three operations after an initial action.
    for (int first = 0; first < 8; ++first) {
        if (!vp::begin()) continue;
        walker w; world s; std::vector<int> rec;
        for (int b = 0; b < 3; ++b) {
            if (first >> b & 1 || s.client.entries.empty()) { ++s.now; s.client.entries.push_back(make(s.now)); w.path += " act"; }
            else {
                for (auto &e : s.client.entries) if (int(e.timestamp) > s.sent_max) rec.push_back(int(e.timestamp));
                s.sent_max = int(s.client.entries.back().timestamp);
                s.server.merge(s.client); w.path += " deliver";
            }
        }
        vp::describer() = [&] { return w.path; };
        w.explore(s, rec, d - 3);
        vp::describer() = nullptr;
    }
}

// erase_until and sort on every sequence of timestamps from a small alphabet.
VP_SCENARIO(erase_and_sort) {
    const int n = vp::thorough() ? 6 : 5, vals = 4;
    int total = 1;
    for (int i = 0; i < n; ++i) total *= vals + 1;
    for (int code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        std::vector<int> ts;
        for (int c = code, i = 0; i < n; ++i, c /= vals + 1) if (c % (vals + 1)) ts.push_back(c % (vals + 1));
        vp::describe("timestamps code %d", code);
        vp::states();
        action_history h;
        for (auto t : ts) h.entries.push_back(make(t));
        VP_CHECK(h.empty() == ts.empty(), "empty() is wrong");
        auto s = h; s.sort();
        auto sorted = ts; std::sort(sorted.begin(), sorted.end());
        VP_CHECK(s.entries.size() == ts.size(), "sort changes the number of entries");
        for (size_t i = 0; i < sorted.size(); ++i) VP_CHECK(int(s.entries[i].timestamp) == sorted[i] && intact(s.entries[i]), "sort does not order the entries");
        for (int t = 0; t <= vals + 1; ++t) {
            vp::transitions();
            auto e = s; e.erase_until(t);
            std::vector<int> got, want;
            for (auto &x : e.entries) { got.push_back(int(x.timestamp)); VP_CHECK(intact(x), "erase_until damages an entry"); }
            for (auto x : sorted) if (x >= t) want.push_back(x);
            VP_CHECK(got == want, "erase_until(%d) keeps the wrong entries", t);
        }
    }
}

// Merging lists of actions accumulates them in order; other components are replaced.
VP_SCENARIO(merge_lists) {
    const int n = 4;
    for (int a = 0; a <= n; ++a) for (int b = 0; b <= n; ++b) for (int c = 0; c <= n; ++c) {
        if (!vp::begin()) continue;
        vp::describe("list sizes %d %d %d", a, b, c);
        action_list<int> l, m, k;
        std::vector<int> want;
        for (int i = 0; i < a; ++i) { l.actions.push_back(i); want.push_back(i); }
        for (int i = 0; i < b; ++i) { m.actions.push_back(100 + i); want.push_back(100 + i); }
        for (int i = 0; i < c; ++i) { k.actions.push_back(200 + i); want.push_back(200 + i); }
        auto m0 = m.actions;
        merge_component(l, m); merge_component(l, k);
        VP_CHECK(l.actions == want, "merging action lists does not accumulate them in order");
        VP_CHECK(m.actions == m0, "merging changes the source list");
        int x = a, y = b; merge_component(x, y);
        VP_CHECK(x == b && y == b, "merging a plain component does not replace it");
    }
}

// A history or a list of actions arrives as it was sent. The number of entries is sent as one byte: of longer ones the
// oldest 255 are sent.
VP_SCENARIO(transfer) {
    for (int n : {0, 1, 2, 3, 5, 17, 254, 255, 256, 257, 300, 511, 512}) for (int len : {0, 1, 2, 255, 256, 300}) for (int before : {0, 1, 4}) {
        if (!vp::begin()) continue;
        vp::describe("%d entries of %d bytes, %d entries in the destination", n, len, before);
        vp::nontrivial(n > 0); vp::transitions();
        action_history h; action_list<int> l;
        for (int i = 0; i < n; ++i) {
            std::vector<uint8_t> d; for (int k = 0; k < len; ++k) d.push_back(uint8_t(i * 7 + k));
            h.entries.emplace_back(i + 0.5, uint8_t(i + 3), std::move(d)); l.actions.push_back(i * 1000 + 1);
        }
        auto h0 = h; auto l0 = l;
        std::vector<uint8_t> buf, buf2;
        { memory_output_archive out(buf); out(h); memory_output_archive out2(buf2); out2(l); }
        VP_CHECK(h.entries.size() == size_t(n) && l.actions == l0.actions, "writing changes the source");
        action_history r; action_list<int> rl; r.last_timestamp = 12; rl.actions.assign(before, -1);
        for (int i = 0; i < before; ++i) r.entries.emplace_back(99., uint8_t(9), std::vector<uint8_t>{1, 2, 3});
        { memory_input_archive in(buf.data(), buf.size()); in(r); VP_CHECK(!in.failed(), "reading fails"); }
        { memory_input_archive in(buf2.data(), buf2.size()); in(rl); VP_CHECK(!in.failed(), "reading fails"); }
        size_t want = std::min(n, 255);
        VP_CHECK(r.entries.size() == want && rl.actions.size() == want, "%zu entries and %zu actions arrive instead of %zu", r.entries.size(), rl.actions.size(), want);
        for (size_t i = 0; i < want; ++i) {
            VP_CHECK(r.entries[i].timestamp == h0.entries[i].timestamp && r.entries[i].action_index == h0.entries[i].action_index && r.entries[i].data == h0.entries[i].data, "entry %zu arrives changed", i);
            VP_CHECK(rl.actions[i] == l0.actions[i], "action %zu arrives changed", i);
        }
        vp::states();
    }
}

// Discontinuities accumulate: offsets add up and rotations compose, whatever the sequence.
VP_SCENARIO(merge_discontinuities) {
    std::vector<discontinuity_accumulator> set(4);
    set[1].position_offset = {1, -2, 0.5f}; set[1].orientation_offset = quaternion_axis_angle({0, 0, 1}, scalar(0.7));
    set[2].position_offset = {0, 0.25f, 4}; set[2].orientation_offset = quaternion_axis_angle({1, 1, 0}, scalar(-1.9));
    set[3].position_offset = {-3, 0, 0}; set[3].orientation_offset = quaternion_axis_angle({0, 1, 0}, scalar(3));
    const int depth = vp::thorough() ? 6 : 4;
    int total = 1; for (int i = 0; i < depth; ++i) total *= 4;
    for (int code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        vp::describe("sequence %d", code); vp::nontrivial(code > 0);
        discontinuity_accumulator acc; double p[3] = {}; double q[4] = {0, 0, 0, 1};
        for (int i = 0, c = code; i < depth; ++i, c /= 4) {
            auto &n = set[c % 4]; auto o = n.orientation_offset; auto n0 = n;
            merge_component(acc, n); vp::transitions();
            p[0] += n.position_offset.x; p[1] += n.position_offset.y; p[2] += n.position_offset.z;
            double r[4] = {q[3] * o.x + q[0] * o.w + q[1] * o.z - q[2] * o.y, q[3] * o.y + q[1] * o.w + q[2] * o.x - q[0] * o.z, q[3] * o.z + q[2] * o.w + q[0] * o.y - q[1] * o.x, q[3] * o.w - q[0] * o.x - q[1] * o.y - q[2] * o.z};
            std::copy(r, r + 4, q);
            VP_CHECK(n.position_offset == n0.position_offset && n.orientation_offset == n0.orientation_offset, "merging changes the source");
            VP_CHECK(std::abs(acc.position_offset.x - p[0]) < 1e-4 && std::abs(acc.position_offset.y - p[1]) < 1e-4 && std::abs(acc.position_offset.z - p[2]) < 1e-4, "position offsets do not add up after %d merges", i + 1);
            auto &a = acc.orientation_offset;
            VP_CHECK(std::abs(a.x - q[0]) < 1e-5 && std::abs(a.y - q[1]) < 1e-5 && std::abs(a.z - q[2]) < 1e-5 && std::abs(a.w - q[3]) < 1e-5, "orientation offsets do not compose after %d merges", i + 1);
            vp::states();
        }
    }
}
