// The asynchronous mode: the simulation runs in another thread and what it does arrives in the main registry,
// whatever the schedule of the two.
#include "simworld.hpp"
#include "jobs.hpp"
#include "dvec.hpp"
#include "edyn/collision/query_aabb.hpp"
#include "edyn/collision/raycast.hpp"
#include "edyn/comp/child_list.hpp"
#include "edyn/comp/gravity.hpp"
#include "edyn/constraints/hinge_constraint.hpp"
#include "edyn/constraints/point_constraint.hpp"
#include "edyn/simulation/stepper_async.hpp"
#include "edyn/util/gravity_util.hpp"
#include "edyn/util/island_util.hpp"
#include <cstring>
using namespace edyn;
namespace edyn { query_aabb_id_type query_aabb_async(entt::registry &, const AABB &, const query_aabb_delegate_type &, bool, bool, bool) __attribute__((weak)); }
namespace {
constexpr int BODIES = 4;
#define CHECK(c, ...) do { if (mc::in_execution()) mc::check(c, __VA_ARGS__); else VP_CHECK(c, __VA_ARGS__); } while (0)
// One world in either mode, to which the same operations are applied.
struct world {
    entt::registry reg; bool async; double now = 0; bool attached = false, strict = true; 
    struct question { int kind; unsigned id; bool answered; std::vector<int> answer{}; }; std::vector<question> asked;
    std::vector<entt::entity> b, joint;
    world(bool async) : async(async), b(BODIES, entt::null) { start(); }
    void start() {
        init_config cfg; cfg.execution_mode = async ? execution_mode::asynchronous : execution_mode::sequential; cfg.timestamp = 0.0; cfg.enqueue_task = &sim::run_now; cfg.enqueue_task_wait = &sim::run_wait;
        attach(reg, cfg); set_paused(reg, true); attached = true;
        set_solver_velocity_iterations(reg, 4); set_solver_position_iterations(reg, 2);
    }
    void stop() { detach(reg); attached = false; }
    ~world() { if (attached) stop(); }
    // The answer to the first ray is given after everything sent before it was processed, what that led to is sent before the answer to the second one.
    void settle() {
        if (!async) { update(reg, now); return; }
        update(reg, now);
        for (int i = 0; i < 2; ++i) {
            answered = 0; raycast_async(reg, vector3{0, 1000, 0}, vector3{0, 1001, 0}, raycast_delegate_type{entt::connect_arg<&world::on_far>, *this});
            for (int k = 0; !answered; ++k) { CHECK(k < 300, "the simulation thread does not answer"); std::this_thread::yield(); update(reg, now); }
        }
    }
    int answered = 0;
    void on_far(raycast_id_type, const raycast_result &, vector3, vector3) { ++answered; }
    int index(entt::entity e) { for (int i = 0; i < BODIES; ++i) if (b[i] == e && e != entt::null) return i; return e == entt::null ? -1 : -2; }
    std::vector<int> said() { std::vector<int> a; for (auto &q : asked) a.insert(a.end(), q.answer.begin(), q.answer.end()); return a; }
    void ready() { if (strict) settle(); }
    std::vector<int> hit(const raycast_result &r) { return {index(r.entity), r.entity == entt::null ? 0 : int(std::lround(double(r.fraction) * 1000))}; }
    std::vector<int> found(const query_aabb_result &r) {
        auto set = [&](const std::vector<entt::entity> &v) { int m = 0; for (auto e : v) { int i = index(e); CHECK(i >= 0, "a query finds something that is no body"); CHECK(!(m >> i & 1), "a query finds a body twice"); m |= 1 << i; } return m; };
        for (auto e : r.island_entities) CHECK(reg.valid(e) && reg.all_of<island_tag>(e), "a query finds an island that is gone");
        return {set(r.procedural_entities), set(r.non_procedural_entities), int(r.island_entities.size())};
    }
    void on_ray(raycast_id_type id, const raycast_result &r, vector3, vector3) { auto &q = answer(0, id); if (strict) q.answer = hit(r); }
    void on_query(query_aabb_id_type id, const query_aabb_result &r) { auto &q = answer(1, id); if (strict) q.answer = found(r); }
    void on_interest(query_aabb_id_type id, const query_aabb_result &r) { auto &q = answer(1, id); if (!strict) return; int m = 0; for (auto e : r.procedural_entities) { int i = index(e); CHECK(i >= 0 || (reg.valid(e) && reg.all_of<constraint_tag>(e)), "a query finds something that is neither a body nor a constraint"); if (i >= 0) m |= 1 << i; } for (auto e : r.non_procedural_entities) m |= 1 << index(e); q.answer = {m}; }
    void interest(AABB box) {
        if (async) { asked.push_back({1, query_aabb_of_interest_async(reg, box, query_aabb_delegate_type{entt::connect_arg<&world::on_interest>, *this}), false}); return; }
        int m = 0; query_island_aabb(reg, box, [&](entt::entity i) { for (auto e : reg.get<island>(i).nodes) if (reg.all_of<procedural_tag>(e)) m |= 1 << index(e); }); query_non_procedural_aabb(reg, box, [&](entt::entity e) { m |= 1 << index(e); }); asked.push_back({1, 0, true, {m}});
    }
    question &answer(int kind, unsigned id) { for (auto &q : asked) if (q.kind == kind && q.id == id) { CHECK(!q.answered, "a question is answered twice"); q.answered = true; return q; } CHECK(false, "an answer to a question that was not asked"); return asked[0]; }
    void ray(vector3 p, vector3 o, std::vector<entt::entity> ignore = {}) {
        if (!async) { asked.push_back({0, 0, true, hit(raycast(reg, p, o, ignore))}); return; }
        asked.push_back({0, raycast_async(reg, p, o, raycast_delegate_type{entt::connect_arg<&world::on_ray>, *this}, ignore), false});
    }
    void query(AABB box) {
        if (!async) { query_aabb_result r; query_procedural_aabb(reg, box, [&](entt::entity e) { r.procedural_entities.push_back(e); }); query_non_procedural_aabb(reg, box, [&](entt::entity e) { r.non_procedural_entities.push_back(e); }); query_island_aabb(reg, box, [&](entt::entity e) { r.island_entities.push_back(e); }); asked.push_back({1, 0, true, found(r)}); return; }
        asked.push_back({1, query_aabb_async(reg, box, query_aabb_delegate_type{entt::connect_arg<&world::on_query>, *this}, true, true, true), false});
    }
    rigidbody_def def(int i) {
        rigidbody_def d; d.sleeping_disabled = true; d.mass = scalar(i + 1);
        material m; m.friction = scalar(0.5); d.material = m;
        switch (i) {
            case 0: d.kind = rigidbody_kind::rb_static; d.shape = plane_shape{vector3{0, 1, 0}, 0}; break;
            case 1: d.shape = sphere_shape{scalar(0.5)}; d.position = vector3{0, scalar(0.49), 0}; d.linvel = vector3{scalar(0.2), 0, 0}; break;
            case 2: d.shape = box_shape{vector3{scalar(0.5), scalar(0.4), scalar(0.3)}}; d.position = vector3{2, scalar(0.39), 0}; d.center_of_mass = vector3{0, scalar(-0.1), 0}; d.angvel = vector3{0, 1, 0}; break;
            case 3: d.kind = rigidbody_kind::rb_kinematic; d.shape = box_shape{vector3{scalar(0.3), scalar(0.3), scalar(0.3)}}; d.position = vector3{0, 3, 0}; d.linvel = vector3{0, scalar(0.1), 0}; break;
        }
        return d;
    }
    bool has(int i) { return b[i] != entt::null; }
};
const char *NAMES[] = {"make the floor", "make the sphere", "make the box", "make the kinematic box", "destroy the floor", "destroy the sphere", "destroy the box", "destroy the kinematic box",
    "joint sphere and kinematic box", "destroy the joint", "step", "settle", "push the sphere", "move the box", "give the sphere a centre of mass", "box to sphere shape", "sphere becomes kinematic", "box becomes static", "turn gravity", "cast rays", "query boxes", "clear the box", "give the floor a centre of mass", "run for a while", "give the box no centre of mass", "wake the box"};
bool apply(world &w, int op) {
    auto &reg = w.reg;
    if (op < 4) { if (w.has(op)) return false; w.b[op] = make_rigidbody(reg, w.def(op)); return true; }
    if (op < 8) { op -= 4; if (!w.has(op)) return false; reg.destroy(w.b[op]); w.b[op] = entt::null; return true; }
    switch (op) {
        case 8: if (!w.has(1) || !w.has(3) || !w.joint.empty()) return false; w.joint.push_back(make_constraint<point_constraint>(reg, w.b[1], w.b[3], [](point_constraint &c) { c.pivot[0] = vector3{0, 1, 0}; c.pivot[1] = vector3{0, scalar(-1.5), 0}; })); return true;
        case 9: if (w.joint.empty() || !reg.valid(w.joint[0])) return false; reg.destroy(w.joint[0]); w.joint.clear(); return true;
        case 10: update(reg, w.now); w.now += 1. / 60; step_simulation(reg, w.now); return true;
        case 11: w.settle(); return true;
        case 12: if (!w.has(1) || !reg.all_of<dynamic_tag>(w.b[1])) return false; w.ready(); rigidbody_apply_impulse(reg, w.b[1], vector3{1, scalar(0.5), 0}, vector3{0, scalar(0.2), scalar(0.1)}); return true;
        case 13: if (!w.has(2)) return false; w.ready(); set_rigidbody_origin(reg, w.b[2], vector3{1, 2, 3}); return true;
        case 14: if (!w.has(1)) return false; set_center_of_mass(reg, w.b[1], vector3{scalar(0.1), 0, 0}); return true;
        case 15: if (!w.has(2)) return false; w.ready(); rigidbody_set_shape(reg, w.b[2], shapes_variant_t{sphere_shape{scalar(0.4)}}); return true;
        case 16: if (!w.has(1)) return false; rigidbody_set_kind(reg, w.b[1], rigidbody_kind::rb_kinematic); return true;
        case 17: if (!w.has(2)) return false; rigidbody_set_kind(reg, w.b[2], rigidbody_kind::rb_static); return true;
        case 18: w.ready(); set_gravity(reg, vector3{1, -5, 0}); return true;
        case 21: if (!w.has(2)) return false; w.ready(); clear_rigidbody(reg, w.b[2]); reg.destroy(w.b[2]); w.b[2] = entt::null; return true;
        case 19: w.ready(); w.ray(vector3{0, 10, 0}, vector3{0, -10, 0}); w.ray(vector3{2, 10, 0}, vector3{2, -10, 0}, w.has(2) ? std::vector<entt::entity>{w.b[2]} : std::vector<entt::entity>{}); w.ready(); return true;
        case 20: if (w.async) CHECK(query_aabb_async != nullptr, "query_aabb_async does not exist"); w.ready(); w.query({vector3{-3, -1, -3}, vector3{1, 4, 3}}); w.interest({vector3{scalar(1.8), scalar(0.1), -1}, vector3{3, 1, 1}}); w.query({vector3{scalar(1.8), scalar(0.1), -1}, vector3{3, 1, 1}}); w.ready(); return true;
        case 22: if (!w.has(0)) return false; set_center_of_mass(reg, w.b[0], vector3{1, 0, 2}); return true;
        case 23: if (w.strict) return false; set_paused(reg, false); for (int i = 0; i < 3; ++i) { w.now += 1. / 60; update(reg, w.now); std::this_thread::yield(); } set_paused(reg, true); return true;
        case 24: if (!w.has(2)) return false; set_center_of_mass(reg, w.b[2], vector3_zero); return true;
        case 25: if (!w.has(2)) return false; wake_up_entity(reg, w.b[2]); return true;
    }
    return false;
}
struct body { bool there; int kind; V p, v, w; Q q; double m; std::vector<int> touches; bool has_com; V com; size_t points; };
using snap = std::vector<body>;
snap look(world &w) {
    snap s; auto &reg = w.reg;
    for (int i = 0; i < BODIES; ++i) {
        body x{}; x.there = w.has(i);
        if (x.there) {
            auto e = w.b[i]; CHECK(reg.valid(e) && reg.all_of<rigidbody_tag>(e), "body %d is gone", i);
            x.kind = reg.all_of<dynamic_tag>(e) + 2 * reg.all_of<kinematic_tag>(e) + 4 * reg.all_of<static_tag>(e);
            x.p = v(reg.get<position>(e)); x.q = q(reg.get<orientation>(e)); if (auto *l = reg.try_get<linvel>(e)) { x.v = v(*l); x.w = v(reg.get<angvel>(e)); }
            x.m = reg.all_of<mass>(e) ? double(reg.get<mass>(e)) : 0; x.has_com = reg.all_of<center_of_mass>(e); if (x.has_com) x.com = v(reg.get<center_of_mass>(e));
            for (int j = 0; j < BODIES; ++j) if (j != i && w.has(j) && manifold_exists(reg, e, w.b[j])) { x.touches.push_back(j); x.points += reg.get<contact_manifold_state>(get_manifold_entity(reg, e, w.b[j])).num_points; }
        }
        s.push_back(x);
    }
    return s;
}
// What the main registry holds is complete and refers to nothing that is gone.
void whole(world &w) {
    auto &reg = w.reg; auto &graph = reg.ctx().get<entity_graph>(); size_t bodies = 0, points = 0, listed = 0;
    for (auto e : reg.view<rigidbody_tag>()) { ++bodies; CHECK(reg.all_of<graph_node>(e) && graph.node_entity(reg.get<graph_node>(e).node_index) == e, "a body is not in the graph"); if (reg.all_of<dynamic_tag>(e)) { auto *r = reg.try_get<island_resident>(e); CHECK(r && r->island_entity != entt::null && reg.valid(r->island_entity) && reg.all_of<island_tag>(r->island_entity), "dynamic body %d is in no island, resident %d, null %d", int(std::find(w.b.begin(), w.b.end(), e) - w.b.begin()), r != nullptr, r && r->island_entity == entt::null); } }
    size_t want = 0; for (int i = 0; i < BODIES; ++i) want += w.has(i);
    CHECK(bodies == want, "there are %zu bodies instead of %zu", bodies, want);
    for (auto [e, m] : reg.view<contact_manifold>().each()) {
        CHECK((reg.valid(m.body[0]) && reg.valid(m.body[1]) && reg.all_of<graph_edge>(e)), "a manifold refers to a body that is gone");
        auto &s = reg.get<contact_manifold_state>(e); size_t n = 0;
        for (auto c = s.contact_entity; c != entt::null; ++n) { CHECK((n < max_contacts && reg.valid(c) && reg.all_of<contact_point_list, contact_point>(c)), "the points of a manifold are not a list"); auto &l = reg.get<contact_point_list>(c); CHECK(l.parent == e, "a contact point belongs to another manifold"); c = l.next; }
        CHECK(n == s.num_points, "a manifold counts %u points but has %zu", unsigned(s.num_points), n); listed += n;
    }
    for (auto e : reg.view<contact_point>()) { (void)e; ++points; }
    CHECK(points == listed, "%zu of %zu contact points are in no manifold", points - listed, points);
    for (auto e : reg.view<graph_edge>()) { auto p = graph.edge_node_entities(reg.get<graph_edge>(e).edge_index); CHECK((reg.valid(p.first) && reg.valid(p.second) && reg.all_of<rigidbody_tag>(p.first) && reg.all_of<rigidbody_tag>(p.second)), "a constraint refers to a body that is gone"); }
}
void equal(const snap &a, const snap &r) {
    for (int i = 0; i < BODIES; ++i) {
        auto &x = a[i], &y = r[i]; auto near = [&](const char *what, V p, V o) { double d = len(p - o); CHECK(d < 2e-4 * (1 + len(o)), "%s of body %d is (%g %g %g) instead of (%g %g %g)", what, i, p.x, p.y, p.z, o.x, o.y, o.z); };
        if (!y.there) continue;
        CHECK(x.kind == y.kind, "body %d is of kind %d instead of %d", i, x.kind, y.kind); near("position", x.p, y.p); near("velocity", x.v, y.v); near("angular velocity", x.w, y.w); near("orientation", {x.q.x, x.q.y, x.q.z}, {y.q.x, y.q.y, y.q.z});
        CHECK(std::abs(x.m - y.m) < 1e-5, "body %d has mass %g instead of %g", i, x.m, y.m); CHECK(x.has_com == y.has_com && len(x.com - y.com) < 1e-6, "body %d has another centre of mass", i);
        CHECK(x.touches == y.touches, "body %d has %zu manifolds instead of %zu", i, x.touches.size(), y.touches.size()); CHECK(x.points == y.points, "body %d has %zu contact points instead of %zu", i, x.points, y.points);
    }
}
// What is left after detaching.
void left(world &w, size_t joints) {
    auto &reg = w.reg; size_t n = 0, want = joints; for (int i = 0; i < BODIES; ++i) want += w.has(i);
    for (auto [e] : reg.storage<entt::entity>().each()) { (void)e; ++n; }
    CHECK((reg.storage<contact_manifold>().empty() && reg.storage<contact_point>().empty() && reg.storage<island_tag>().empty()), "contacts or islands are left after detaching");
    CHECK(n == want, "%zu entities instead of %zu are left after detaching", n, want);
}
std::string list(const std::vector<int> &v) { std::string s; for (int x : v) s += " " + std::to_string(x); return s; }
// Strict: the main registry is settled before each change of what the simulation changes as well, and must be as in the sequential mode.
void go(const std::vector<int> &ops, int pb, bool strict = true) {
    if (!vp::begin()) return;
    std::string d = "deviations " + std::to_string(pb) + ":"; for (int o : ops) d += std::string(" ") + NAMES[o] + ","; vp::describe("%s", d.c_str());
    snap ref; std::vector<int> answers; if (strict) { world w(false); for (int o : ops) apply(w, o); w.settle(); ref = look(w); answers = w.said(); }
    for (int k = 0; k < 2; ++k) { // static variables are made in the first
        mc::options o; o.preemptions = k ? pb : 0; o.delays = true; o.max_steps = 200000;
        auto r = mc::explore(o, [&] {
            world w(true); w.strict = strict; for (int x : ops) apply(w, x); w.settle(); whole(w); auto s = look(w); if (strict) equal(s, ref);
            for (auto &q : w.asked) CHECK(q.answered, "a question was not answered"); CHECK(!strict || w.said() == answers, "rays or queries find%s instead of%s", list(w.said()).c_str(), list(answers).c_str());
            size_t joints = 0; for (auto e : w.joint) joints += w.reg.valid(e); w.stop(); left(w, joints);
        });
        if (k) cap_note(r, vp::st().desc);
    }
}
}
VP_SCENARIO(async_ops) { go({0, 1, 2, 10, 22}, 0); for (int x = 4; x < 26; ++x) { go({0, 1, 2, 3, 8, 10, x, 10, 10}, 0); go({0, 1, 2, 3, 8, x, 10, 10}, 0); go({0, 1, 2, 3, 8, 10, 10, x}, 0); } }
VP_SCENARIO(async_pairs) { for (int x = 4; x < 26; ++x) for (int y = 4; y < 26; ++y) if (x != y) go({0, 1, 2, 3, 8, 10, x, y, 10, 10}, 0); }
VP_SCENARIO(async_loose) { for (int x = 0; x < 26; ++x) for (int y = 0; y < 26; ++y) { go({0, 1, 2, 3, 8, 10, x, y, 10}, 0, false); go({0, 1, 2, 3, 8, x, y, 10}, 0, false); } }
VP_SCENARIO(async_start) { go({10}, 1); go({1, 10, 10}, 1); go({0, 1, 10, 10}, 1); go({1, 14, 10}, 1); }
VP_SCENARIO(async_sphere) { for (int x : {4, 5, 12, 14, 16, 19, 20, 22}) go({0, 1, 10, x, 10}, 1); }
VP_SCENARIO(async_box) { for (int x : {6, 15, 17}) go({0, 2, 10, x, 10}, 1); }
VP_SCENARIO(async_box2) { for (int x : {21, 24, 25}) go({0, 2, 10, x, 10}, 1); }
VP_SCENARIO(async_box3) { go({0, 2, 10, 13, 10, 10}, 1); }
VP_SCENARIO(async_joint) { for (int x : {5, 7, 8, 9, 12, 16}) go({1, 3, 8, 10, x, 10}, 1); }
VP_SCENARIO(async_race_sphere) { for (int x : {4, 5, 14, 16}) go({0, 1, 10, x, 10}, 1, false); }
VP_SCENARIO(async_race_ask) { for (int x : {19, 22}) go({0, 1, 10, x, 10}, 1, false); for (int x : {20}) go({0, 2, 10, x, 10}, 1, false); }
VP_SCENARIO(async_race_box) { for (int x : {6, 15}) go({0, 2, 10, x, 10}, 1, false); }
VP_SCENARIO(async_race_box2) { for (int x : {17, 21, 24}) go({0, 2, 10, x, 10}, 1, false); }
VP_SCENARIO(async_race_run) { go({1, 23}, 1, false); go({0, 1, 10, 23}, 1, false); }
// Deeper, with a smaller world.
VP_SCENARIO(async_deep) { if (!vp::thorough()) return; for (int x : {4, 5, 12, 14, 16, 19, 22}) for (int y : {0, 1, 4, 5, 12, 14, 16, 19, 22}) { go({0, 1, 10, x, y, 10}, 1, false); go({0, 1, 10, x, y, 10, 10}, 1); } }
VP_SCENARIO(async_deep_box) { if (!vp::thorough()) return; for (int x : {6, 13, 15, 17, 20, 21, 24}) for (int y : {0, 2, 6, 13, 15, 17, 20, 21, 24}) { go({0, 2, 10, x, y, 10}, 1, false); go({0, 2, 10, x, y, 10, 10}, 1); } }
VP_SCENARIO(async_triples) { if (!vp::thorough()) return; for (int x = 4; x < 26; ++x) for (int y = 4; y < 26; ++y) for (int z = 0; z < 26; ++z) { go({0, 1, 2, 3, 8, 10, x, y, z, 10, 10}, 0); go({0, 1, 2, 3, 8, 10, x, y, z, 10}, 0, false); } }
