// Material mixing table: a pair means the same whichever way round it is given.
#include "vp.hpp"
#include "edyn/dynamics/material_mixing.hpp"
#include <map>
#include <vector>
#include <string>
using namespace edyn;

namespace {
using id = material::id_type;
using key = std::pair<id, id>;
key norm(id a, id b) { return a < b ? key{a, b} : key{b, a}; }

material_base mat(int v) {
    material_base m;
    m.restitution = scalar(v); m.friction = scalar(v) / 2;
    return m;
}

struct walker {
    std::vector<id> ids;
    std::string path;

    void verify(const material_mix_table &t, const std::map<key, int> &m) {
        vp::states();
        for (auto a : ids) for (auto b : ids) {
            auto it = m.find(norm(a, b));
            bool in = it != m.end();
            VP_CHECK(t.contains({a, b}) == in, "contains(%u, %u) is %d", unsigned(a), unsigned(b), !in);
            auto *p = t.try_get({a, b});
            VP_CHECK((p != nullptr) == in, "try_get(%u, %u) is wrong", unsigned(a), unsigned(b));
            if (in) {
                VP_CHECK(p->restitution == scalar(it->second) && p->friction == scalar(it->second) / 2, "the pair (%u, %u) maps to another material", unsigned(a), unsigned(b));
                VP_CHECK(t.get({a, b}).restitution == scalar(it->second), "get(%u, %u) is another material", unsigned(a), unsigned(b));
            }
        }
    }

    void explore(const material_mix_table &t, const std::map<key, int> &m, int depth, int next) {
        ++vp::st().progress;
        verify(t, m);
        if (!depth) return;
        auto len = path.size();
        for (auto a : ids) for (auto b : ids) {
            vp::transitions(2);
            {
                path += " insert(" + std::to_string(a) + "," + std::to_string(b) + ")";
                auto t2 = t; auto m2 = m;
                t2.insert({a, b}, mat(next)); m2[norm(a, b)] = next;
                explore(t2, m2, depth - 1, next + 1);
                path.resize(len);
            }
            if (m.count(norm(a, b))) {
                path += " remove(" + std::to_string(a) + "," + std::to_string(b) + ")";
                auto t2 = t; auto m2 = m;
                t2.remove({a, b}); m2.erase(norm(a, b));
                explore(t2, m2, depth - 1, next);
                path.resize(len);
            }
        }
    }
};
}

VP_SCENARIO(table_sequences) {
    int d = vp::thorough() ? 5 : 4;
    // Sharded on the first insertion.
    for (auto ids : std::vector<std::vector<id>>{{0, 1, 2}, {7, 3, 65533}})
        for (auto a : ids) for (auto b : ids) {
            if (!vp::begin()) continue;
            walker w; w.ids = ids;
            w.path = "insert(" + std::to_string(a) + "," + std::to_string(b) + ")";
            vp::describer() = [&] { return w.path; };
            material_mix_table t; t.insert({a, b}, mat(1));
            w.explore(t, {{norm(a, b), 1}}, d - 1, 2);
            vp::describer() = nullptr;
        }
}

// Every subset of pairs over four ids, inserted in both orientations and two orders.
VP_SCENARIO(table_subsets) {
    const std::vector<id> ids = {0, 1, 2, 5};
    std::vector<key> all;
    for (size_t i = 0; i < ids.size(); ++i) for (size_t j = i; j < ids.size(); ++j) all.push_back({ids[i], ids[j]});
    for (unsigned mask = 0; mask < (1u << all.size()); ++mask) for (int rev = 0; rev < 4; ++rev) {
        if (!vp::begin()) continue;
        vp::describe("subset mask %u, orientation and order variant %d", mask, rev);
        material_mix_table t; std::map<key, int> m;
        for (size_t k = 0; k < all.size(); ++k) {
            size_t i = rev & 1 ? all.size() - 1 - k : k;
            if (!(mask >> i & 1)) continue;
            auto a = all[i].first, b = all[i].second;
            bool flip = rev & 2 ? (i % 2) : false;
            t.insert(flip ? unordered_pair<id>{b, a} : unordered_pair<id>{a, b}, mat(int(i) + 1));
            m[norm(a, b)] = int(i) + 1;
        }
        walker w; w.ids = ids; w.verify(t, m);
    }
}

// Order and equality laws which the table (and any ordered container) relies on.
VP_SCENARIO(pair_order) {
    const int n = vp::thorough() ? 6 : 5;
    std::vector<unordered_pair<int>> ps;
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) ps.push_back({a, b});
    for (auto &x : ps) for (auto &y : ps) {
        if (!vp::begin()) continue;
        vp::describe("(%d,%d) (%d,%d)", x.first, x.second, y.first, y.second);
        bool eq = norm(x.first, x.second) == norm(y.first, y.second);
        VP_CHECK((x == y) == eq, "equality depends on the order");
        VP_CHECK(!(x < x), "less-than is not irreflexive");
        VP_CHECK(!(x < y && y < x), "less-than is not antisymmetric");
        VP_CHECK((!(x < y) && !(y < x)) == eq, "neither pair is less exactly when they are equal: violated");
        VP_CHECK(x[0] == x.first && x[1] == x.second, "indexing a pair is wrong");
        for (auto &z : ps) {
            VP_CHECK(!(x < y && y < z) || x < z, "less-than is not transitive with (%d,%d)", z.first, z.second);
            bool xy = !(x < y) && !(y < x), yz = !(y < z) && !(z < y), xz = !(x < z) && !(z < x);
            VP_CHECK(!(xy && yz) || xz, "incomparability is not transitive with (%d,%d)", z.first, z.second);
        }
    }
}

// The mixing rules are symmetric and stay within the range of their inputs.
VP_SCENARIO(mixing_rules) {
    std::vector<scalar> vals = {0, scalar(1e-6), scalar(0.1), scalar(0.25), scalar(0.5), scalar(0.9), 1, scalar(1.5), 2, 10, 1000, scalar(1e6), EDYN_SCALAR_MAX};
    for (auto a : vals) for (auto b : vals) {
        if (!vp::begin()) continue;
        vp::describe("a=%g b=%g", double(a), double(b));
        double da = a, db = b;
        auto near = [](double x, double y) { return std::abs(x - y) <= 1e-5 * (1 + std::abs(y)); };
        if (a < scalar(1e7) && b < scalar(1e7)) {
            VP_CHECK(near(material_mix_friction(a, b), std::sqrt(da * db)), "friction does not mix by the geometric mean");
            VP_CHECK(material_mix_friction(a, b) == material_mix_friction(b, a), "friction mixing is not symmetric");
        }
        VP_CHECK(material_mix_restitution(a, b) == std::min(a, b), "restitution does not mix by the minimum");
        VP_CHECK(material_mix_spin_friction(a, b) == std::max(a, b), "spin friction does not mix by the maximum");
        VP_CHECK(material_mix_roll_friction(a, b) == std::max(a, b), "roll friction does not mix by the maximum");
        if (a > 0 && b > 0 && a < EDYN_SCALAR_MAX && b < EDYN_SCALAR_MAX) {
            double e = 1 / (1 / da + 1 / db);
            VP_CHECK(std::abs(material_mix_stiffness(a, b) - e) <= 1e-5 * e, "stiffness does not mix as springs in series");
            VP_CHECK(std::abs(material_mix_damping(a, b) - e) <= 1e-5 * e, "damping does not mix as dampers in series");
        }
        if (a == EDYN_SCALAR_MAX && b < scalar(1e7) && b > 0)
            VP_CHECK(near(material_mix_stiffness(a, b), db), "rigid against soft is not the soft stiffness");
    }
}
