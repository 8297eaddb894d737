// Contacts and bookkeeping of a running simulation after any history of changes to its bodies.
#include "simworld.hpp"
using namespace edyn;

namespace {
const vector3 places[] = {{0, 0, 0}, {scalar(0.85), scalar(0.1), 0}, {4, 0, 0}};
const int KIND[] = {0, 0, 1, 2, 0, 0, 0, 0, 0};      // dynamic, dynamic, static, kinematic, dynamic
const vector3 HOME[] = {{0, 0, 0}, {4, 0, 0}, {0, scalar(-0.95), 0}, {4, scalar(1.3), 0}, {scalar(0.1), 1, 0}, {8, 0, 0}, {scalar(8.9), 0, 0}, {8, scalar(0.9), 0}, {scalar(8.9), scalar(0.9), 0}};
std::shared_ptr<convex_mesh> cube() {
    static std::shared_ptr<convex_mesh> m = [] {
        auto m = std::make_shared<convex_mesh>();
        for (int i = 0; i < 8; ++i) m->vertices.push_back(vector3{i & 1 ? 0.5f : -0.5f, i & 2 ? 0.5f : -0.5f, i & 4 ? 0.5f : -0.5f});
        const int f[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
        for (auto &q : f) { m->faces.push_back(uint32_t(m->indices.size())); m->faces.push_back(4); for (int k : q) m->indices.push_back(uint32_t(k)); }
        m->initialize(); return m;
    }();
    return m;
}
shapes_variant_t shape_of(int k) {
    switch (k) {
        case 0: return sphere_shape{scalar(0.5)};
        case 1: return box_shape{vector3{scalar(0.5), scalar(0.5), scalar(0.5)}};
        case 2: return polyhedron_shape{cube()};
        case 3: { compound_shape c; c.add_shape(sphere_shape{scalar(0.4)}, vector3{scalar(0.2), 0, 0}, quaternion_identity); c.add_shape(polyhedron_shape{cube()}, vector3{scalar(-0.2), 0, 0}, quaternion_identity); c.add_shape(polyhedron_shape{cube()}, vector3{0, scalar(-0.1), 0}, quaternion_identity); c.finish(); return c; }
        case 4: return capsule_shape{scalar(0.3), scalar(0.2), coordinate_axis::y};
    }
    return plane_shape{vector3{0, 1, 0}, scalar(-0.45)};
}
struct world : sim::base {
    struct body { entt::entity e = entt::null; bool fresh = true; };
    std::vector<body> b;
    std::map<int, entt::entity> cleared;     // entities that were bodies once and are to become ones again
    explicit world(execution_mode mode) : base(mode) { set_gravity(reg, vector3_zero); }
    entt::entity ent(int i) { return i < int(b.size()) ? b[i].e : entt::entity(entt::null); }
    void make(int i, int shape, bool sensor = false) {
        if (int(b.size()) <= i) b.resize(i + 1);
        if (b[i].e != entt::null) return;
        rigidbody_def d; d.kind = KIND[i] == 0 ? rigidbody_kind::rb_dynamic : KIND[i] == 1 ? rigidbody_kind::rb_static : rigidbody_kind::rb_kinematic;
        d.position = HOME[i]; d.mass = 1; d.inertia = matrix3x3_identity * scalar(0.2); d.presentation = false;
        if (shape >= 0) { d.shape = shape_of(shape); if (shape == 5 && KIND[i] != 1) d.shape = shape_of(1); }
        if (sensor) d.material.reset();
        if (shape >= 0 && KIND[i] == 0 && (i == 4 || (i == 0 && shape == 1))) d.center_of_mass = vector3{scalar(0.1), scalar(-0.05), 0};
        if (auto it = cleared.find(i); it != cleared.end()) { make_rigidbody(it->second, reg, d); b[i] = {it->second}; cleared.erase(it); }
        else b[i] = {make_rigidbody(reg, d)};
    }
    std::string name(entt::entity e) { for (size_t i = 0; i < b.size(); ++i) if (b[i].e == e) return "body " + std::to_string(i); return "entity " + std::to_string(unsigned(e)); }
    void check(bool stepped) {
        auto n = [&](entt::entity e) { return name(e); };
        vp::states(); sim::consistent(reg, n); if (stepped) sim::islands_complete(reg, n);
    }
    void step() {
        // The boxes of bodies the step starts with.
        std::map<entt::entity, AABB> box; std::set<entt::entity> awake; std::set<std::pair<entt::entity, entt::entity>> had;
        for (auto &x : b) if (x.e != entt::null) if (auto *a = reg.try_get<AABB>(x.e)) { box[x.e] = *a; if (!reg.all_of<sleeping_tag>(x.e)) awake.insert(x.e); }
        for (auto [e, m] : reg.view<contact_manifold>().each()) had.insert({std::min(m.body[0], m.body[1]), std::max(m.body[0], m.body[1])});
        std::map<entt::entity, vector3> at; for (auto &x : b) if (x.e != entt::null) at[x.e] = reg.get<position>(x.e);
        tick(); vp::transitions(); check(true);
        for (auto &[x, bx] : box) for (auto &[y, by] : box) if (x < y) {
            bool dynx = reg.all_of<dynamic_tag>(x), dyny = reg.all_of<dynamic_tag>(y);
            if (!dynx && !dyny) continue;
            bool active = (dynx && awake.count(x)) || (dyny && awake.count(y));
            bool have = manifold_exists(reg, x, y), may = should_collide_default(reg, x, y);
            auto gap = [&](const AABB &p, const AABB &q) { double g = -1e9; for (int k = 0; k < 3; ++k) g = std::max(g, std::max(double(p.min[k] - q.max[k]), double(q.min[k] - p.max[k]))); return g; };
            double g = gap(bx, by);
            if (g <= 0 && may && active) VP_CHECK(have, "%s and %s are in reach of each other but have no manifold", name(x).c_str(), name(y).c_str());
            if (g > 0.5 && active) VP_CHECK(!have, "%s and %s are far apart but have a manifold", name(x).c_str(), name(y).c_str());
            if (!had.count({x, y}) && !may) VP_CHECK(!have, "%s and %s must not collide but got a manifold", name(x).c_str(), name(y).c_str());
            // Every shape here but the plane surrounds its centre by 0.3 or more.
            if (g <= 0 && may && active && intersect(bx, AABB{at[x], at[x]}) && intersect(by, AABB{at[y], at[y]}) && !reg.all_of<plane_shape>(x) && !reg.all_of<plane_shape>(y) && distance(at[x], at[y]) < scalar(0.35))
                VP_CHECK(reg.get<contact_manifold_state>(get_manifold_entity(reg, x, y)).num_points > 0, "%s and %s overlap but have no contact point", name(x).c_str(), name(y).c_str());
            vp::nontrivial(have);
        }
    }
    void move(int i, const vector3 &p) { if (ent(i) == entt::null) return; reg.replace<position>(ent(i), p); wake_up_entity(reg, ent(i)); }
};

struct op { int k, a, b; };
const char *NAMES[] = {"step", "move", "destroy", "clear", "make", "shape", "no shape", "static", "dynamic", "exclude", "remove exclusion", "sleep", "wake", "push", "sensor", "kinematic", "3 steps"};
std::string show(const std::vector<op> &s) { std::string r; for (auto &x : s) r += std::string(r.empty() ? "" : ", ") + NAMES[x.k] + (x.k && x.k != 11 && x.k != 16 ? " " + std::to_string(x.a) + (x.k == 1 || x.k == 5 || x.k == 4 || x.k == 9 || x.k == 10 ? "/" + std::to_string(x.b) : "") : ""); return r; }
void apply(world &w, const op &o) {
    auto e = w.ent(o.a);
    bool live = e != entt::null;
    switch (o.k) {
        case 0: w.step(); return;
        case 1: w.move(o.a, places[o.b]); break;
        case 2: if (live) { w.reg.destroy(e); w.b[o.a].e = entt::null; } break;
        case 3: if (live) { clear_rigidbody(w.reg, e); w.cleared[o.a] = e; w.b[o.a].e = entt::null; } break;
        case 4: w.make(o.a, o.b); break;
        case 5: if (live) rigidbody_set_shape(w.reg, e, shape_of(o.b)); break;
        case 6: if (live) rigidbody_set_shape(w.reg, e, {}); break;
        case 7: if (live && KIND[o.a] == 0) rigidbody_set_kind(w.reg, e, rigidbody_kind::rb_static); break;
        case 8: if (live && KIND[o.a] == 0) rigidbody_set_kind(w.reg, e, rigidbody_kind::rb_dynamic); break;
        case 9: if (live && w.ent(o.b) != entt::null) exclude_collision(w.reg, e, w.ent(o.b)); break;
        case 10: if (live && w.ent(o.b) != entt::null) remove_collision_exclusion(w.reg, e, w.ent(o.b)); break;
        case 11: w.mgr().put_all_to_sleep(); break;
        case 12: if (live) wake_up_entity(w.reg, e); break;
        case 13: if (live && w.reg.all_of<dynamic_tag>(e)) { rigidbody_apply_impulse(w.reg, e, vector3{1, scalar(-0.5), 0}, vector3{0, scalar(0.2), 0}); wake_up_entity(w.reg, e); } break;
        case 14: w.make(o.a, 0, true); break;
        case 15: if (live && KIND[o.a] == 0) rigidbody_set_kind(w.reg, e, rigidbody_kind::rb_kinematic); break;
        case 16: w.step(); w.step(); w.step(); return;
    }
    vp::transitions();
    w.check(false);
}
void histories(const std::vector<op> &start, const std::vector<op> &ops, int depth, execution_mode mode = execution_mode::sequential) {
    size_t total = 1; for (int i = 0; i < depth; ++i) total *= ops.size();
    for (size_t code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        auto seq = start; size_t c = code; for (int i = 0; i < depth; ++i, c /= ops.size()) seq.push_back(ops[c % ops.size()]);
        vp::describer() = [&] { return show(seq); };
        world w(mode);
        for (auto &o : seq) apply(w, o);
        w.step(); w.step();
        for (auto &x : w.b) if (x.e != entt::null) { w.reg.destroy(x.e); x.e = entt::null; w.check(false); }
        for (auto &c : w.cleared) w.reg.destroy(c.second);
        w.step();
        VP_CHECK(w.reg.view<contact_manifold>().begin() == w.reg.view<contact_manifold>().end(), "manifolds remain");
        VP_CHECK(w.reg.view<contact_point_list>().begin() == w.reg.view<contact_point_list>().end(), "contact points remain");
        size_t left = 0; for (auto e : w.reg.view<entt::entity>()) left += w.reg.valid(e);
        VP_CHECK(left == 0, "%zu entities remain", left);
        vp::describer() = nullptr;
    }
}
std::vector<op> menu(bool shapes, bool kinds, bool sleep) {
    std::vector<op> m = {{0, 0, 0}};
    for (int i : {0, 2}) for (int p = 0; p < 3; ++p) if (i == 0 || p != 1) m.push_back({1, i, p});
    for (int i : {0, 1, 2}) m.push_back({2, i, 0});
    m.push_back({3, 0, 0}); m.push_back({4, 0, 1}); m.push_back({4, 2, 1});
    if (shapes) { for (int k = 0; k < 5; ++k) m.push_back({5, 0, k}); m.push_back({6, 0, 0}); m.push_back({6, 2, 0}); m.push_back({5, 2, 5}); m.push_back({14, 0, 0}); }
    if (kinds) { m.push_back({7, 0, 0}); m.push_back({8, 0, 0}); m.push_back({15, 0, 0}); m.push_back({7, 4, 0}); m.push_back({9, 0, 4}); m.push_back({10, 0, 4}); }
    if (sleep) { m.push_back({11, 0, 0}); m.push_back({12, 0, 0}); m.push_back({13, 0, 0}); m.push_back({13, 4, 0}); }
    return m;
}
const std::vector<op> START = {{4, 0, 0}, {4, 1, 1}, {4, 2, 1}, {4, 3, 0}, {4, 4, 1}, {16, 0, 0}};
}
// Detaching leaves the user's entities and nothing else, and the registry can be used again.
void detaching(const std::vector<op> &start, const std::vector<op> &ops, int depth, execution_mode mode) {
    size_t total = 1; for (int i = 0; i < depth; ++i) total *= ops.size();
    for (size_t code = 0; code < total; ++code) {
        if (!vp::begin()) continue;
        auto seq = start; size_t c = code; for (int i = 0; i < depth; ++i, c /= ops.size()) seq.push_back(ops[c % ops.size()]);
        vp::describer() = [&] { return show(seq) + ", detach, attach, the same again with the same entities, then with new ones"; };
        world w(mode);
        for (int round = 0; round < 3; ++round) {
            if (round) { w.start(mode); set_gravity(w.reg, vector3_zero); }
            for (auto &o : seq) apply(w, o);
            w.stop(); vp::states(); vp::transitions();
            for (auto &x : w.b) if (x.e != entt::null) { if (round) w.reg.destroy(x.e); else w.cleared[int(&x - w.b.data())] = x.e; x.e = entt::null; }
            if (!round) continue;
            for (auto &c : w.cleared) w.reg.destroy(c.second);
            w.cleared.clear();
            size_t left = 0; for (auto e : w.reg.view<entt::entity>()) left += w.reg.valid(e);
            VP_CHECK(left == 0, "%zu entities remain", left);
        }
        vp::describer() = nullptr;
    }
}
VP_SCENARIO(detach) {
    for (auto mode : {execution_mode::sequential, execution_mode::sequential_multithreaded}) { detaching(START, menu(true, true, true), vp::thorough() ? 3 : 2, mode); detaching({}, menu(true, true, true), vp::thorough() ? 3 : 2, mode); }
}
VP_SCENARIO(shapes) { histories(START, menu(true, false, false), vp::thorough() ? 4 : 3); }
VP_SCENARIO(kinds) { histories(START, menu(false, true, false), vp::thorough() ? 5 : 4); }
VP_SCENARIO(sleep) { histories(START, menu(false, false, true), vp::thorough() ? 5 : 4); }
VP_SCENARIO(fresh) { auto m = menu(true, true, false); histories({{4, 0, 1}, {4, 2, 1}}, m, vp::thorough() ? 4 : 3); }
VP_SCENARIO(mixed) { histories(START, menu(true, true, true), vp::thorough() ? 4 : 3); }
VP_SCENARIO(parallel) {
    // Enough contacts for the parallel paths, all awake or only those of the second group.
    std::vector<op> s; for (int i = 0; i < 9; ++i) s.push_back({4, i, i == 0 || i == 3 ? 0 : 1});
    s.push_back({16, 0, 0});
    auto t = s; t.push_back({11, 0, 0}); t.push_back({12, 5, 0});
    histories(s, menu(true, true, true), vp::thorough() ? 3 : 2, execution_mode::sequential_multithreaded);
    histories(t, menu(true, true, true), vp::thorough() ? 3 : 2, execution_mode::sequential_multithreaded);
}
