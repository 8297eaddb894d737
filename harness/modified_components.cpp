// Which components count as recently modified, over all sequences of touches and elapsed times.
#include "vp.hpp"
#include "edyn/networking/comp/exporter_modified_components.hpp"
#include <map>
#include <string>
using namespace edyn;

namespace {
template<int N>
struct walker {
    using tracker = exporter_modified_components<N>;
    std::string path;
    static constexpr long dur = 400;
    std::vector<unsigned> dts = {0, 1, 199, 200, 399, 400, 401, 1000, 65536, 65636, 70000};

    void verify(const tracker &t, const std::map<int, long> &m) {
        vp::states();
        VP_CHECK(t.count <= N, "more entries than components");
        std::map<int, long> got;
        for (unsigned i = 0; i < t.count; ++i) {
            VP_CHECK(!got.count(t.entry[i].index), "component %u is listed twice", unsigned(t.entry[i].index));
            got[t.entry[i].index] = t.entry[i].remaining;
        }
        bool any = false;
        for (auto &kv : m) {
            // Within its duration a touched component must be listed.
            if (kv.second > 0) { VP_CHECK(got.count(kv.first) && got[kv.first] == kv.second, "a recently modified component is not listed with the time it has left"); any = true; }
        }
        for (auto &kv : got) VP_CHECK(m.count(kv.first) && m.at(kv.first) >= 0 && m.at(kv.first) == kv.second, "component %d is still listed although it expired", kv.first);
        VP_CHECK(t.empty() == !any, "empty() is wrong");
    }

    void explore(const tracker &t, const std::map<int, long> &m, int depth) {
        ++vp::st().progress;
        verify(t, m);
        if (!depth) return;
        auto len = path.size();
        for (int i = 0; i < N; ++i) {
            vp::transitions();
            auto t2 = t; auto m2 = m; t2.bump_index(uint16_t(i)); m2[i] = dur;
            path += " touch" + std::to_string(i); explore(t2, m2, depth - 1); path.resize(len);
        }
        for (auto dt : dts) {
            vp::transitions();
            auto t2 = t; auto m2 = m; t2.decay(dt);
            for (auto it = m2.begin(); it != m2.end();) { it->second -= long(dt); if (it->second < 0) it = m2.erase(it); else ++it; }
            path += " +" + std::to_string(dt) + "ms"; explore(t2, m2, depth - 1); path.resize(len);
        }
    }
    void run(int depth) {
        for (int first = 0; first < N; ++first) {
            if (!vp::begin()) continue;
            path = "touch" + std::to_string(first);
            vp::describer() = [this] { return path; };
            tracker t; std::map<int, long> m;
            verify(t, m);
            t.bump_index(uint16_t(first)); m[first] = dur;
            explore(t, m, depth - 1);
            vp::describer() = nullptr;
        }
    }
};
}

VP_SCENARIO(one_component) { walker<1> w; w.run(vp::thorough() ? 7 : 5); }
VP_SCENARIO(two_components) { walker<2> w; w.run(vp::thorough() ? 6 : 5); }
VP_SCENARIO(three_components) { walker<3> w; w.run(vp::thorough() ? 6 : 5); }
VP_SCENARIO(five_components) { walker<5> w; w.dts = {0, 200, 400, 401}; w.run(vp::thorough() ? 8 : 7); }
