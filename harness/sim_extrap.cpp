// A client that extrapolates what it gets from the server in another thread: whatever the schedule of the two, it ends up with the world of the server.
#define NET_EXTRAPOLATE
#include "sim_net.cpp"
namespace {
void go(bool ownership, const std::vector<int> &before, const std::vector<step> &h, int pb) {
    if (!vp::begin()) return;
    std::string d = std::string(ownership ? "full ownership; " : "") + "deviations " + std::to_string(pb) + ": "; for (auto o : before) d += std::string(OP[o]) + ", "; d += "| "; for (auto s : h) d += std::string(OP[s.op]) + MODE[s.mode] + ", "; vp::describe("%s", d.c_str());
    for (int k = 0; k < (pb ? 2 : 1); ++k) { // static variables are made in the first
        mc::options o; o.preemptions = k ? pb : 0; o.delays = true; o.max_steps = 400000;
        auto r = mc::explore(o, [&] { play(1, ownership, before, h); });
        if (k || !pb) cap_note(r, vp::st().desc);
    }
}
void every(const std::vector<int> &before, const std::vector<int> &ops, const std::vector<int> &modes, int depth, int pb) {
    size_t n = ops.size() * modes.size(), total = 1; for (int i = 0; i < depth; ++i) total *= n;
    for (int ownership = 0; ownership < 2; ++ownership) for (size_t k = 0; k < total; ++k) {
        std::vector<step> h; size_t x = k; for (int i = 0; i < depth; ++i, x /= n) h.push_back({ops[x % n % ops.size()], modes[x % n / ops.size()]});
        go(ownership, before, h, pb);
    }
}
}
// In the schedule in which a thread runs until it waits.
VP_SCENARIO(ext_server) { every({1, 2, 3}, {0, 4, 5, 6, 7, 8, 9, 10, 21}, {ALL, DOWNLATE, BOTHLATE}, vp::thorough() ? 2 : 1, 0); }
VP_SCENARIO(ext_client) { every({1, 12}, {0, 5, 9, 13, 14, 15, 16, 2, 22, 38, 37}, {ALL, DOWNLATE, BOTHLATE}, vp::thorough() ? 2 : 1, 0); }
VP_SCENARIO(ext_interest) { every({1, 2, 3, 10}, {0, 18, 19, 5, 7, 8, 11}, {ALL, DOWNLATE, BOTHLATE}, vp::thorough() ? 2 : 1, 0); }
VP_SCENARIO(ext_assets) { every({24}, {0, 26, 18, 25, 27}, {ALL, DOWNLATE}, vp::thorough() ? 2 : 1, 0); }
VP_SCENARIO(ext_pairs) { every({1, 12}, {9, 5, 15, 14, 18}, {ALL, BOTHLATE}, 2, 0); }
// In every schedule that deviates once from it.
void race(const std::vector<int> &before, std::vector<step> h) { PATIENCE = 8; LEAD = 2; go(false, before, h, 1); PATIENCE = 12; LEAD = 4; }
VP_SCENARIO(ext_race_make) { race({}, {{1, ALL}}); }
VP_SCENARIO(ext_race_kick) { race({1}, {{9, ALL}}); }
VP_SCENARIO(ext_race_destroy) { race({1}, {{5, ALL}}); }
VP_SCENARIO(ext_race_own) { race({12}, {{15, ALL}}); }
VP_SCENARIO(ext_race_own_destroy) { if (vp::thorough()) race({12}, {{14, ALL}}); }
VP_SCENARIO(ext_race_leave) { if (vp::thorough()) race({1}, {{18, DOWNLATE}}); }
VP_SCENARIO(ext_race_more) { if (vp::thorough()) for (int x : {2, 9, 7, 5, 10, 21}) for (int y : {0, 9, 5, 7}) race({1, 2}, {{x, ALL}, {y, DOWNLATE}}); }
VP_SCENARIO(ext_race_more_own) { if (vp::thorough()) for (int x : {13, 14, 15, 22, 37, 38}) for (int y : {0, 14, 15, 22}) race({12, 13}, {{x, ALL}, {y, BOTHLATE}}); }
