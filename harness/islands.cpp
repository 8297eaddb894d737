// Islands against the connected components of a reference graph of bodies and constraints. All histories.
#include "vp.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/edyn.hpp"
#include "edyn/comp/island.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/comp/linvel.hpp"
#include "edyn/comp/angvel.hpp"
#include "edyn/comp/graph_node.hpp"
#include "edyn/constraints/null_constraint.hpp"
#include "edyn/constraints/distance_constraint.hpp"
#include "edyn/context/task.hpp"
#include "edyn/core/entity_graph.hpp"
#include "edyn/simulation/stepper_sequential.hpp"
#include "edyn/util/constraint_util.hpp"
#include "edyn/util/island_util.hpp"
#include "edyn/util/rigidbody.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace edyn;

namespace {
void run_now(task_delegate_t task, unsigned size, task_completion_delegate_t done) { task(0, size); if (done) done(); }
void run_wait(task_delegate_t task, unsigned size) { task(0, size); }

enum kind { DYN, STA, KIN };
struct body { entt::entity e = entt::null; kind k = DYN; bool full = false; };
struct edge { entt::entity e; entt::entity a, b; bool fresh = true; };

struct world {
    entt::registry reg;
    std::vector<body> bodies;
    std::vector<edge> edges;
    double now = 0;
    std::set<entt::entity> touched, doubt, slept, restless; // since the last update; at the last update; moving or never to sleep

    void touch(entt::entity e) {
        if (e == entt::null) return;
        touched.insert(e);
        for (auto &x : edges) { if (x.a == e) (x.fresh ? doubt : touched).insert(x.b); if (x.b == e) (x.fresh ? doubt : touched).insert(x.a); }
    }

    world() {
        init_config cfg; cfg.execution_mode = execution_mode::sequential; cfg.timestamp = 0.0;
        cfg.enqueue_task = &run_now; cfg.enqueue_task_wait = &run_wait;
        attach(reg, cfg);
        set_paused(reg, true);
    }
    ~world() { detach(reg); }
    island_manager &mgr() { return reg.ctx().get<stepper_sequential>().get_island_manager(); }

    void make(size_t i, kind k) {
        if (bodies.size() <= i) bodies.resize(i + 1);
        if (bodies[i].e != entt::null) return;
        rigidbody_def def; def.kind = k == DYN ? rigidbody_kind::rb_dynamic : k == STA ? rigidbody_kind::rb_static : rigidbody_kind::rb_kinematic;
        def.mass = 1; def.inertia = matrix3x3_identity; def.gravity = vector3_zero; def.presentation = false;
        bodies[i] = {make_rigidbody(reg, def), k, k == DYN};
    }
    entt::entity ent(size_t i) { return i < bodies.size() ? bodies[i].e : entt::entity(entt::null); }
    kind kind_of(entt::entity e) { for (auto &b : bodies) if (b.e == e) return b.k; return STA; }
    void connect(size_t i, size_t j, bool with_distance = false) {
        if (ent(i) == entt::null || ent(j) == entt::null) return;
        auto e = with_distance ? make_constraint<distance_constraint>(reg, ent(i), ent(j)) : make_constraint<null_constraint>(reg, ent(i), ent(j));
        edges.push_back({e, ent(i), ent(j)});
    }
    void disconnect(size_t i, size_t j, bool keep_entity) {
        for (size_t n = 0; n < edges.size(); ++n) if ((edges[n].a == ent(i) && edges[n].b == ent(j)) || (edges[n].a == ent(j) && edges[n].b == ent(i))) {
            for (auto x : {ent(i), ent(j)}) (edges[n].fresh ? doubt : touched).insert(x); // nobody may notice a constraint that was never there at an update
            if (keep_entity) clear_constraint(reg, edges[n].e); else reg.destroy(edges[n].e);
            edges.erase(edges.begin() + n); return;
        }
    }
    void destroy(size_t i, bool keep_entity) {
        auto e = ent(i); if (e == entt::null) return;
        touch(e); restless.erase(e);
        for (size_t n = 0; n < edges.size();) if (edges[n].a == e || edges[n].b == e) edges.erase(edges.begin() + n); else ++n;
        if (keep_entity) clear_rigidbody(reg, e); else reg.destroy(e);
        bodies[i].e = entt::null;
    }
    void set_kind(size_t i, kind k) {
        auto e = ent(i); if (e == entt::null || (k == DYN && !bodies[i].full)) return;
        rigidbody_set_kind(reg, e, k == DYN ? rigidbody_kind::rb_dynamic : k == STA ? rigidbody_kind::rb_static : rigidbody_kind::rb_kinematic);
        if (bodies[i].k != k) touch(e);
        bodies[i].k = k;
    }
    void wake(size_t i) { if (ent(i) == entt::null) return; wake_up_entity(reg, ent(i)); touch(ent(i)); }
    void push(size_t i) { if (ent(i) == entt::null || bodies[i].k != DYN) return; reg.get<linvel>(ent(i)) = vector3{1, 0, 0}; wake(i); restless.insert(ent(i)); }
    void stop(size_t i) { if (ent(i) == entt::null || !reg.all_of<linvel>(ent(i))) return; reg.get<linvel>(ent(i)) = vector3_zero; if (!reg.all_of<sleeping_disabled_tag>(ent(i))) restless.erase(ent(i)); }
    void never_sleep(size_t i) { if (ent(i) == entt::null || bodies[i].k != DYN) return; reg.emplace_or_replace<sleeping_disabled_tag>(ent(i)); wake(i); restless.insert(ent(i)); }
    void update(double dt = 1. / 60, bool rested = false) { now += dt; mgr().update(now); verify(dt, rested); }

    std::string name(entt::entity e) { for (size_t i = 0; i < bodies.size(); ++i) if (bodies[i].e == e) return "body " + std::to_string(i); for (size_t i = 0; i < edges.size(); ++i) if (edges[i].e == e) return "constraint " + std::to_string(i); return "entity " + std::to_string(unsigned(e)); }

    void verify(double dt, bool rested) {
        vp::states();
        for (auto &x : edges) if (x.fresh) { touched.insert(x.a); touched.insert(x.b); x.fresh = false; }
        // Components of the dynamic bodies.
        std::map<entt::entity, entt::entity> root;
        for (auto &b : bodies) if (b.e != entt::null && b.k == DYN) root[b.e] = b.e;
        std::function<entt::entity(entt::entity)> find = [&](entt::entity e) { return root[e] == e ? e : find(root[e]); };
        for (auto &x : edges) if (root.count(x.a) && root.count(x.b)) { auto p = find(x.a), q = find(x.b); root[p] = q; }
        std::map<entt::entity, std::set<entt::entity>> nodes, lines;
        for (auto &[e, r] : root) { (void)r; nodes[find(e)].insert(e); }
        for (auto &x : edges) for (auto e : {x.a, x.b}) if (root.count(e)) { auto r = find(e); lines[r].insert(x.e); nodes[r].insert(x.a); nodes[r].insert(x.b); }
        size_t count = 0;
        std::map<entt::entity, entt::entity> of; // island of each component
        for (auto &[r, ns] : nodes) {
            auto *res = reg.try_get<island_resident>(r);
            VP_CHECK(res && reg.valid(res->island_entity) && reg.all_of<island>(res->island_entity), "%s is in no island", name(r).c_str());
            of[r] = res->island_entity;
            auto &isl = reg.get<island>(res->island_entity);
            std::set<entt::entity> have(isl.nodes.begin(), isl.nodes.end()), hl(isl.edges.begin(), isl.edges.end());
            for (auto e : ns) VP_CHECK(have.count(e), "%s is not in the island of %s", name(e).c_str(), name(r).c_str());
            for (auto e : have) VP_CHECK(ns.count(e), "%s is in the island of %s", name(e).c_str(), name(r).c_str());
            for (auto e : lines[r]) VP_CHECK(hl.count(e), "%s is not in the island of %s", name(e).c_str(), name(r).c_str());
            for (auto e : hl) VP_CHECK(lines[r].count(e), "%s is in the island of %s", name(e).c_str(), name(r).c_str());
            VP_CHECK(have.size() == isl.nodes.size() && hl.size() == isl.edges.size(), "the island of %s holds something twice", name(r).c_str());
            bool asleep = reg.all_of<sleeping_tag>(res->island_entity);
            for (auto e : ns) if (root.count(e)) {
                VP_CHECK(reg.get<island_resident>(e).island_entity == res->island_entity, "%s and %s are in different islands", name(e).c_str(), name(r).c_str());
                VP_CHECK(reg.all_of<sleeping_tag>(e) == asleep, "%s %s unlike its island", name(e).c_str(), asleep ? "is awake" : "sleeps");
            }
            // Sleep: what changed wakes its island, what rests falls asleep and stays so.
            bool unsure = false, any_doubt = false, any_touched = false, any_restless = false, all_asleep = true;
            for (auto e : ns) { any_touched |= touched.count(e) > 0 && root.count(e); any_restless |= restless.count(e) > 0; all_asleep &= !root.count(e) || slept.count(e) > 0; unsure |= restless.count(e) && !root.count(e); any_doubt |= doubt.count(e) > 0; }
            if (any_touched && dt < 1) VP_CHECK(!asleep, "the island of %s changed but sleeps", name(r).c_str());
            if (any_restless && !unsure) VP_CHECK(!asleep, "the island of %s sleeps though a body of it moves or must not sleep", name(r).c_str());
            if (!any_touched && !any_doubt && all_asleep && !any_restless) VP_CHECK(asleep, "the island of %s woke up without a reason", name(r).c_str());
            if (rested && !any_restless) VP_CHECK(asleep, "the island of %s does not fall asleep", name(r).c_str());
            if (asleep) for (auto e : ns) if (auto *v = reg.try_get<linvel>(e); v && root.count(e)) VP_CHECK(*v == vector3_zero && reg.get<angvel>(e) == vector3_zero, "%s moves in its sleep", name(e).c_str());
            for (auto e : hl) {
                VP_CHECK(reg.get<island_resident>(e).island_entity == res->island_entity, "%s does not know its island", name(e).c_str());
                VP_CHECK(reg.all_of<sleeping_tag>(e) == asleep, "%s %s unlike its island", name(e).c_str(), asleep ? "is awake" : "sleeps");
            }
            ++count;
        }
        std::set<entt::entity> seen; for (auto &[r, i] : of) VP_CHECK(seen.insert(i).second, "an island holds unconnected bodies, %s among them", name(r).c_str());
        size_t islands = 0; for (auto e : reg.view<island>()) { VP_CHECK(seen.count(e), "there is an island without a dynamic body"); ++islands; }
        VP_CHECK(islands == count, "%zu islands instead of %zu", islands, count);
        for (auto &b : bodies) if (b.e != entt::null && b.k != DYN) {
            auto *res = reg.try_get<multi_island_resident>(b.e);
            VP_CHECK(res && !reg.all_of<island_resident>(b.e), "%s does not reside like one that is not dynamic", name(b.e).c_str());
            std::set<entt::entity> have(res->island_entities.begin(), res->island_entities.end()), want;
            for (auto &[r, ns] : nodes) if (ns.count(b.e)) want.insert(of[r]);
            VP_CHECK(have == want, "%s names %zu islands instead of %zu", name(b.e).c_str(), have.size(), want.size());
            VP_CHECK(!reg.all_of<sleeping_tag>(b.e), "%s sleeps though it is not dynamic", name(b.e).c_str());
        }
        touched.clear(); doubt.clear(); slept.clear(); for (auto &b : bodies) if (b.e != entt::null && reg.all_of<sleeping_tag>(b.e)) slept.insert(b.e);
        for (auto &x : edges) if (!root.count(x.a) && !root.count(x.b)) VP_CHECK(reg.get<island_resident>(x.e).island_entity == entt::null, "%s connects no dynamic body but is in an island", name(x.e).c_str());
    }
};

struct step { int op, a, b; };
const char *names[] = {"connect", "connect+", "destroy constraint", "clear constraint", "destroy", "clear", "make dynamic", "make static", "set dynamic", "set static", "set kinematic", "update", "wake", "rest", "push", "stop", "never sleep"};
std::string show(const std::vector<step> &s) { std::string r; for (auto &x : s) r += std::string(r.empty() ? "" : ", ") + names[x.op] + (x.op < 4 ? " " + std::to_string(x.a) + "-" + std::to_string(x.b) : x.op != 11 && x.op != 13 ? " " + std::to_string(x.a) : ""); return r; }
void apply(world &w, const step &s) {
    vp::transitions();
    switch (s.op) {
        case 0: w.connect(s.a, s.b); break;
        case 1: w.connect(s.a, s.b, true); break;
        case 2: w.disconnect(s.a, s.b, false); break;
        case 3: w.disconnect(s.a, s.b, true); break;
        case 4: w.destroy(s.a, false); break;
        case 5: w.destroy(s.a, true); break;
        case 6: w.make(s.a, DYN); break;
        case 7: w.make(s.a, STA); break;
        case 8: w.set_kind(s.a, DYN); break;
        case 9: w.set_kind(s.a, STA); break;
        case 10: w.set_kind(s.a, KIN); break;
        case 11: w.update(); break;
        case 12: w.wake(s.a); break;
        case 13: w.update(); w.update(3); w.update(3); w.update(3, true); break;
        case 14: w.push(s.a); break;
        case 15: w.stop(s.a); break;
        case 16: w.never_sleep(s.a); break;
    }
}
std::vector<step> start_graph(int n, const char *kinds, unsigned mask, bool rest) {
    std::vector<step> s;
    for (int i = 0; i < n; ++i) s.push_back({kinds[i] == 'S' ? 7 : 6, i, 0});
    int k = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++k) if (mask >> k & 1) s.push_back({0, i, j});
    s.push_back({rest ? 13 : 11, 0, 0});
    return s;
}
void histories(int n, const std::vector<const char *> &kinds, const std::vector<step> &ops, int depth, bool rest, unsigned skip = 1) {
    size_t total = 1; for (int i = 0; i < depth; ++i) total *= ops.size();
    for (auto k : kinds) for (unsigned mask = 0; mask < 1u << (n * (n - 1) / 2); mask += skip) for (size_t code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        auto seq = start_graph(n, k, mask, rest); size_t c = code;
        for (int i = 0; i < depth; ++i, c /= ops.size()) seq.push_back(ops[c % ops.size()]);
        vp::describer() = [&] { return show(seq); };
        world w;
        for (auto &s : seq) apply(w, s);
        w.update(); w.update();
        // Everything can be taken away again.
        for (int i = 0; i < n; ++i) { w.destroy(size_t((i * 3 + int(mask)) % n), false); if (i % 2) w.update(); }
        for (int i = 0; i < n; ++i) w.destroy(size_t(i), false);
        w.update();
        VP_CHECK(w.reg.view<island>().begin() == w.reg.view<island>().end(), "islands remain");
        vp::describer() = nullptr;
    }
}
std::vector<step> changes(int n, bool kinds) {
    std::vector<step> ops = {{11, 0, 0}};
    for (int i = 0; i < n; ++i) { ops.push_back({4, i, 0}); for (int j = i + 1; j < n; ++j) { ops.push_back({0, i, j}); ops.push_back({2, i, j}); } }
    if (kinds) for (int i = 0; i < n; ++i) { ops.push_back({8, i, 0}); ops.push_back({9, i, 0}); }
    return ops;
}
}
VP_SCENARIO(edges_and_bodies) {
    auto ops = changes(3, false); ops.push_back({6, 1, 0}); ops.push_back({7, 1, 0}); ops.push_back({5, 0, 0}); ops.push_back({3, 0, 1}); ops.push_back({1, 1, 2}); ops.push_back({0, 1, 1});
    histories(3, {"DDD", "DDS", "SDD", "DSD", "DSS"}, ops, vp::thorough() ? 4 : 3, false);
}
VP_SCENARIO(four_bodies) {
    auto ops = changes(4, false);
    histories(4, {"DDDD", "DDDS", "DDSS"}, ops, vp::thorough() ? 3 : 2, false);
}
VP_SCENARIO(kinds) {
    auto ops = changes(3, true); ops.push_back({10, 0, 0}); ops.push_back({6, 2, 0});
    histories(3, {"DDD", "DDS"}, ops, vp::thorough() ? 4 : 3, false);
}
VP_SCENARIO(sleeping) {
    auto ops = changes(3, true); ops.push_back({12, 0, 0}); ops.push_back({12, 2, 0}); ops.push_back({13, 0, 0}); ops.push_back({14, 0, 0}); ops.push_back({15, 0, 0}); ops.push_back({16, 1, 0}); ops.push_back({6, 0, 0});
    histories(3, {"DDD", "DDS"}, ops, vp::thorough() ? 4 : 3, true);
}
