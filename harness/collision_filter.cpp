// Filters and exclusions against a reference set of pairs; the map of manifolds against a reference map. All sequences.
#include "vp.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/collision/should_collide.hpp"
#include "edyn/collision/contact_manifold_map.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/comp/collision_exclusion.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/util/exclude_collision.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace edyn;

namespace {
typedef std::pair<entt::entity, entt::entity> pr;
pr key(entt::entity a, entt::entity b) { return a < b ? pr{a, b} : pr{b, a}; }

const collision_filter menu[] = {{1, ~0ull}, {2, 1}, {1ull << 63, ~0ull & ~2ull}, {~0ull, 0}, {0, ~0ull}, {3, 3}, {0x100000000ull, 0x100000000ull}};

struct world {
    entt::registry reg;
    std::vector<entt::entity> e;
    std::set<pr> excluded;
    std::map<entt::entity, collision_filter> filters;
    std::map<entt::entity, std::set<entt::entity>> lists;    // what each exclusion list holds, destroyed bodies included

    entt::entity body() { auto x = reg.create(); reg.emplace<rigidbody_tag>(x); return x; }
    explicit world(int n) { for (int i = 0; i < n; ++i) e.push_back(body()); }

    bool room(int i, int j) { return (lists[e[i]].count(e[j]) || lists[e[i]].size() < 16) && (lists[e[j]].count(e[i]) || lists[e[j]].size() < 16); }
    void exclude(int i, int j, bool pair = false) {
        if (pair) exclude_collision(reg, entity_pair{e[i], e[j]}); else exclude_collision(reg, e[i], e[j]);
        excluded.insert(key(e[i], e[j])); lists[e[i]].insert(e[j]); lists[e[j]].insert(e[i]);
    }
    void remove(int i, int j) { remove_collision_exclusion(reg, e[i], e[j]); excluded.erase(key(e[i], e[j])); lists[e[i]].erase(e[j]); lists[e[j]].erase(e[i]); }
    void clear(int i) {
        clear_collision_exclusion(reg, e[i]);
        for (auto it = excluded.begin(); it != excluded.end();) if (it->first == e[i] || it->second == e[i]) it = excluded.erase(it); else ++it;
        for (auto o : lists[e[i]]) lists[o].erase(e[i]);
        lists[e[i]].clear();
    }
    void replace(int i) { // destroyed, and another body takes its place
        reg.destroy(e[i]); filters.erase(e[i]); lists.erase(e[i]);
        e[i] = body();
    }
    void filter(int i, int k) {
        if (k < 0) { reg.remove<collision_filter>(e[i]); filters.erase(e[i]); }
        else { reg.emplace_or_replace<collision_filter>(e[i], menu[k]); filters[e[i]] = menu[k]; }
    }
    void verify() {
        vp::states();
        for (auto a : e) for (auto b : e) {
            bool want = a != b && !excluded.count(key(a, b));
            auto fa = filters.count(a) ? filters[a] : collision_filter{}, fb = filters.count(b) ? filters[b] : collision_filter{};
            want = want && (fa.group & fb.mask) && (fb.group & fa.mask);
            VP_CHECK(should_collide_default(reg, a, b) == want, "bodies %u and %u %s collide", unsigned(a), unsigned(b), want ? "do not" : "do");
            auto *x = reg.try_get<collision_exclusion>(a);
            if (a != b && x) {
                int n = 0; for (auto y : x->entity) n += y == b;
                VP_CHECK(n == (excluded.count(key(a, b)) ? 1 : 0), "body %u is listed %d times by body %u", unsigned(b), n, unsigned(a));
            }
        }
    }
};

struct step { int op, a, b; };
std::string show(const std::vector<step> &s) {
    static const char *names[] = {"exclude", "exclude pair", "remove", "clear", "replace", "filter"};
    std::string r; for (auto &x : s) r += std::string(" ") + names[x.op] + "(" + std::to_string(x.a) + "," + std::to_string(x.b) + ")"; return r;
}
void apply(world &w, const step &s) {
    vp::transitions();
    switch (s.op) {
        case 0: if (w.room(s.a, s.b)) w.exclude(s.a, s.b); break;
        case 1: if (w.room(s.a, s.b)) w.exclude(s.a, s.b, true); break;
        case 2: w.remove(s.a, s.b); break;
        case 3: w.clear(s.a); break;
        case 4: w.replace(s.a); break;
        case 5: w.filter(s.a, s.b); break;
    }
}
void all(int n, const std::vector<step> &ops, int depth, int prefill = 0) {
    size_t total = 1; for (int i = 0; i < depth; ++i) total *= ops.size();
    for (size_t code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        std::vector<step> seq; size_t c = code;
        for (int i = 0; i < depth; ++i, c /= ops.size()) seq.push_back(ops[c % ops.size()]);
        vp::describer() = [&] { return std::to_string(n) + " bodies, " + std::to_string(prefill) + " exclusions:" + show(seq); };
        world w(n);
        for (int i = 0; i < prefill; ++i) w.exclude(0, i + 1);
        for (size_t i = 0; i < seq.size(); ++i) { apply(w, seq[i]); if (i + 1 == seq.size() || i == 0) w.verify(); }
        vp::nontrivial(!w.excluded.empty() || !w.filters.empty());
        vp::describer() = nullptr;
    }
}
}

VP_SCENARIO(exclusions) {
    std::vector<step> ops;
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) if (i != j) { ops.push_back({0, i, j}); ops.push_back({2, i, j}); } ops.push_back({3, i, 0}); ops.push_back({4, i, 0}); }
    ops.push_back({1, 0, 2});
    all(3, ops, vp::thorough() ? 6 : 5);
}
VP_SCENARIO(filters) {
    std::vector<step> ops;
    for (int i = 0; i < 3; ++i) for (int k = -1; k < int(std::size(menu)); ++k) ops.push_back({5, i, k});
    ops.push_back({0, 0, 1}); ops.push_back({2, 1, 0}); ops.push_back({4, 1, 0});
    all(3, ops, vp::thorough() ? 5 : 4);
}
// Lists that are nearly full, full, and lose some.
VP_SCENARIO(full_lists) {
    std::vector<step> ops = {{4, 0, 0}, {3, 0, 0}};
    for (int j : {1, 2, 8, 15, 16, 17, 18}) { ops.push_back({0, 0, j}); ops.push_back({2, j, 0}); ops.push_back({4, j, 0}); ops.push_back({3, j, 0}); }
    for (int pre : {14, 15, 16}) all(19, ops, vp::thorough() ? 4 : 3, pre);
}

VP_SCENARIO(manifold_map) {
    const int n = 3, depth = vp::thorough() ? 8 : 6;
    std::vector<std::pair<int, int>> pairs; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) pairs.push_back({i, j});
    const int ops = int(pairs.size()) + 2;
    size_t total = 1; for (int i = 0; i < depth; ++i) total *= ops;
    for (size_t code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        std::string path; vp::describer() = [&] { return path; };
        entt::registry reg; contact_manifold_map map(reg);
        std::vector<entt::entity> b; for (int i = 0; i < n; ++i) b.push_back(reg.create());
        std::map<pr, entt::entity> model; size_t c = code;
        for (int d = 0; d < depth; ++d, c /= ops) {
            vp::transitions();
            int o = c % ops;
            if (o < int(pairs.size())) {
                auto x = b[pairs[o].first], y = b[pairs[o].second]; auto k = key(x, y);
                if (!model.count(k)) { // as the broad-phase does: one manifold per pair
                    auto m = reg.create(); reg.emplace<contact_manifold>(m, contact_manifold{{x, y}}); model[k] = m; path += " make" + std::to_string(o);
                } else { reg.destroy(model[k]); model.erase(k); path += " destroy" + std::to_string(o); }
            } else if (o == int(pairs.size())) { if (!model.empty()) { reg.remove<contact_manifold>(model.begin()->second); model.erase(model.begin()); path += " remove"; } }
            else { auto copy = model; for (auto &kv : copy) reg.destroy(kv.second); model.clear(); map.clear(); path += " clear"; }
            for (auto x : b) for (auto y : b) if (x != y) {
                auto it = model.find(key(x, y));
                VP_CHECK(map.contains(x, y) == (it != model.end()) && map.contains(entity_pair{x, y}) == (it != model.end()), "contains(%u, %u) is wrong", unsigned(x), unsigned(y));
                if (it != model.end()) VP_CHECK(map.get(x, y) == it->second && map.get(entity_pair{x, y}) == it->second, "get(%u, %u) returns another manifold", unsigned(x), unsigned(y));
            }
            vp::states();
        }
        vp::nontrivial(!model.empty());
        vp::describer() = nullptr;
    }
}
