// What is set for a body through the functions of the library is what its components say and the simulation uses.
#include "simworld.hpp"
#include "dvec.hpp"
#include "edyn/comp/gravity.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/comp/present_orientation.hpp"
#include "edyn/comp/present_position.hpp"
#include "edyn/dynamics/material_mixing.hpp"
#include "edyn/math/matrix3x3.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/util/gravity_util.hpp"
#include "edyn/util/insert_material_mixing.hpp"
using namespace edyn;
namespace {
std::shared_ptr<convex_mesh> block(double x, double y, double z) {
    auto m = std::make_shared<convex_mesh>();
    for (int i = 0; i < 8; ++i) m->vertices.push_back(ev({i & 1 ? x : -x, i & 2 ? y : -y, i & 4 ? z : -z}));
    const int f[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
    for (auto &k : f) { m->faces.push_back(uint32_t(m->indices.size())); m->faces.push_back(4); for (int i : k) m->indices.push_back(uint32_t(i)); }
    m->initialize(); return m;
}
const char *NAMES[] = {"small box", "large box", "sphere", "cylinder", "capsule", "polyhedron", "large polyhedron", "compound", "compound with polyhedra", "nothing"};
constexpr int SHAPES = 9, NOTHING = 9;
std::optional<shapes_variant_t> shape(int k) {
    switch (k) {
        case 0: return box_shape{vector3{scalar(0.4), scalar(0.3), scalar(0.5)}};
        case 1: return box_shape{vector3{scalar(2.5), scalar(1), scalar(3)}};
        case 2: return sphere_shape{scalar(0.6)};
        case 3: return cylinder_shape{scalar(0.3), scalar(0.7), coordinate_axis::z};
        case 4: return capsule_shape{scalar(0.2), scalar(0.6), coordinate_axis::y};
        case 5: return polyhedron_shape{block(0.4, 0.8, 0.5)};
        case 6: return polyhedron_shape{block(3, 1, 2)};
        case 7: { compound_shape c; c.add_shape(box_shape{vector3{scalar(0.2), scalar(0.2), scalar(0.2)}}, vector3{scalar(0.4), 0, 0}, quaternion_identity); c.add_shape(sphere_shape{scalar(0.3)}, vector3{scalar(-0.4), 0, scalar(0.3)}, quaternion_identity); c.finish(); return c; }
        case 8: { compound_shape c; c.add_shape(polyhedron_shape{block(0.2, 0.3, 0.4)}, vector3{scalar(0.5), 0, 0}, quaternion_identity); c.add_shape(polyhedron_shape{block(0.5, 0.1, 0.2)}, vector3{scalar(-0.6), scalar(0.2), 0}, quaternion_identity); c.finish(); return c; }
    }
    return {};
}
const rigidbody_kind KINDS[] = {rigidbody_kind::rb_dynamic, rigidbody_kind::rb_kinematic, rigidbody_kind::rb_static};
const char *KIND[] = {"dynamic", "kinematic", "static"};
quaternion eq(Q o) { return {scalar(o.x), scalar(o.y), scalar(o.z), scalar(o.w)}; }
const Q ORNS[] = {{}, turn({0, 0, 1}, M_PI / 2), turn({1, 2, -1}, 2.1), {0, 0, 0, -1}, turn({3, -1, 2}, 4)};
const V COMS[] = {{}, {0.1, -0.2, 0.3}, {-0.5, 0, 0.05}};
struct M3 { double a[3][3]; };
M3 m3(const matrix3x3 &m) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = m[i][j]; return r; }
V mv(const M3 &m, V x) { return {m.a[0][0] * x.x + m.a[0][1] * x.y + m.a[0][2] * x.z, m.a[1][0] * x.x + m.a[1][1] * x.y + m.a[1][2] * x.z, m.a[2][0] * x.x + m.a[2][1] * x.y + m.a[2][2] * x.z}; }
void same(const char *what, V a, V b, double eps = 1e-4) { within(what, len(a - b) / (1 + len(a) + len(b)), eps); }
void same_box(const char *what, const AABB &a, const AABB &b) { same(what, v(a.min), v(b.min)); same(what, v(a.max), v(b.max)); }

// The extent of a shape along a direction, from the shape itself.
AABB bounds(const shapes_variant_t &s, V p, Q o) { return std::visit([&](auto &&x) { return shape_aabb(x, ev(p), eq(o)); }, s); } // decided by P34
V origin_of(entt::registry &reg, entt::entity e) { auto *c = reg.try_get<center_of_mass>(e); V p = v(reg.get<position>(e)); return c ? p - rot(q(reg.get<orientation>(e)), v(*c)) : p; }

// Everything a body stores twice agrees.
void body_ok(entt::registry &reg, entt::entity e, bool after_step) {
    V o = origin_of(reg, e); Q r = q(reg.get<orientation>(e));
    same("the origin reported", v(get_rigidbody_origin(reg, e)), o);
    VP_CHECK(reg.all_of<origin>(e) == reg.all_of<center_of_mass>(e), "there is an origin without a centre of mass or the reverse");
    if (auto *x = reg.try_get<origin>(e)) same("the origin stored", v(*x), o);
    if (reg.all_of<dynamic_tag>(e)) {
        within("mass times its inverse", std::abs(double(reg.get<mass>(e)) * double(reg.get<mass_inv>(e)) - 1), 1e-5);
        M3 I = m3(reg.get<inertia>(e)), B = m3(reg.get<inertia_inv>(e)), W = m3(reg.get<inertia_world_inv>(e));
        for (V x : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}}) { same("inertia times its inverse", mv(I, mv(B, x)), x, 1e-3); same("the inverse inertia in the world", mv(W, x), rot(r, mv(B, rot(qc(r), x)))); }
    }
    if (auto *a = reg.try_get<AABB>(e)) { AABB b{}; visit_shape(reg, e, [&](auto &&s) { b = shape_aabb(s, ev(o), eq(r)); }); if (after_step) same_box("the bounding box", *a, b); }
}
std::string label(const char *f, ...) { char s[200]; va_list a; va_start(a, f); std::vsnprintf(s, sizeof s, f, a); va_end(a); return s; }
}
// A new body is where its definition says and moves as it says.
VP_SCENARIO(body_make) {
    for (int k = 0; k < 3; ++k) for (int s = 0; s <= SHAPES; ++s) for (int c = 0; c < 4; ++c) for (auto &o : ORNS) for (double mass : {0.25, 8.0}) for (int opt = 0; opt < 8; ++opt) {
        if (!vp::begin()) continue;
        auto d = label("%s %s, centre of mass %d, mass %g, options %d, turned %g", KIND[k], NAMES[s], c, mass, opt, o.w); vp::describer() = [d] { return d; };
        sim::base w; V p{3, -2, 5}, lv{1, 2, -1}, av{0.5, -0.25, 1}; set_gravity(w.reg, vector3{0, scalar(-3), 0});
        rigidbody_def f; f.kind = KINDS[k]; f.shape = shape(s); f.position = ev(p); f.orientation = eq(o); f.mass = scalar(mass); f.presentation = opt & 1; f.sleeping_disabled = true;
        if (k != 2) { f.linvel = ev(lv); f.angvel = ev(av); }
        if (opt & 2) f.gravity = opt & 4 ? vector3_zero : vector3{1, 0, 2};
        if (c) f.center_of_mass = ev(COMS[c - 1]);
        if (s == NOTHING) f.inertia = diagonal_matrix(vector3{1, 2, 3});
        V com = c ? COMS[c - 1] : V{};
        auto e = make_rigidbody(w.reg, f); auto &reg = w.reg;
        body_ok(reg, e, true);
        same("the origin", v(get_rigidbody_origin(reg, e)), p); same("the position", v(reg.get<position>(e)), p + rot(o, com));
        VP_CHECK(reg.all_of<AABB>(e) == (s != NOTHING) && rigidbody_has_shape(reg, e) == (s != NOTHING), "it has a shape or a box it should not have");
        if (k != 2) { V lvc = v(reg.get<linvel>(e)); same("the velocity of the origin", lvc - cr(v(reg.get<angvel>(e)), rot(o, com)), lv); same("the angular velocity", v(reg.get<angvel>(e)), av); }
        VP_CHECK(reg.all_of<present_position>(e) == (k == 0 && (opt & 1)), "it is presented or not against its definition");
        if (reg.all_of<present_position>(e)) { same("the origin presented", v(get_rigidbody_present_origin(reg, e)), p); same("the position presented", v(reg.get<present_position>(e)), v(reg.get<position>(e))); }
        if (k == 0) {
            within("mass", std::abs(reg.get<edyn::mass>(e) - mass), 1e-6);
            V g = opt & 2 ? (opt & 4 ? V{} : V{1, 0, 2}) : V{0, -3, 0}; V v0 = v(reg.get<linvel>(e)), p0 = v(reg.get<position>(e));
            w.tick(); same("the velocity after a step", v(reg.get<linvel>(e)), v0 + 1.0 / 60 * g); same("the position after a step", v(reg.get<position>(e)), p0 + 1.0 / 60 * (v0 + 1.0 / 60 * g));
        } else { V p0 = v(reg.get<position>(e)); w.tick(); same("the position of a body that is not dynamic", v(reg.get<position>(e)), p0); }
        body_ok(reg, e, true); vp::states(2); vp::transitions();
    }
}
// Impulses, mass, inertia, centre of mass and origin, in any order.
VP_SCENARIO(body_change) {
    const int OPS = 12, depth = vp::thorough() ? 4 : 3;
    std::vector<int> op(depth);
    for (int k = 0; k < 2; ++k) for (int s : {0, 5, 8, NOTHING}) for (int c = 0; c < 2; ++c) for (auto &o : {ORNS[2]}) for (int n = 0, N = int(std::pow(OPS, depth)); n < N; ++n) {
        if (!vp::begin()) continue;
        for (int i = 0, x = n; i < depth; ++i, x /= OPS) op[i] = x % OPS;
        auto d = label("%s %s, centre of mass %d, operations", KIND[k], NAMES[s], c); for (int x : op) d += " " + std::to_string(x); vp::describer() = [d] { return d; };
        sim::base w; auto &reg = w.reg; set_gravity(reg, vector3_zero);
        rigidbody_def f; f.kind = KINDS[k]; f.shape = shape(s); f.position = vector3{1, 2, 3}; f.orientation = eq(o); f.mass = 2; f.linvel = vector3{scalar(0.5), 0, -1}; f.angvel = vector3{scalar(0.3), scalar(0.2), 1}; f.sleeping_disabled = true;
        if (c) f.center_of_mass = ev(COMS[1]);
        if (s == NOTHING) f.inertia = diagonal_matrix(vector3{1, 2, 3});
        auto e = make_rigidbody(reg, f);
        double m = 2; M3 I{}; if (k == 0) I = m3(reg.get<inertia>(e)); V com = c ? COMS[1] : V{};
        for (int x : op) {
            V p = v(reg.get<position>(e)), lv = v(reg.get<linvel>(e)), av = v(reg.get<angvel>(e)); Q r = q(reg.get<orientation>(e)); V og = p - rot(r, com); bool stepped = false;
            V lv1 = lv, av1 = av, og1 = og, imp{0.7, -1, 0.4}, arm{0.3, 0.5, -0.2};
            auto L = [&](V w0) { return rot(r, mv(I, rot(qc(r), w0))); };
            switch (x) {
                case 0: case 1: if (k) break;
                    if (x) { rigidbody_apply_torque_impulse(reg, e, ev(imp)); same("the angular momentum after a torque impulse", L(v(reg.get<angvel>(e))), L(av) + imp, 1e-3); av1 = v(reg.get<angvel>(e)); }
                    else { rigidbody_apply_impulse(reg, e, ev(imp), ev(arm)); lv1 = lv + 1 / m * imp; same("the angular momentum after an impulse", L(v(reg.get<angvel>(e))), L(av) + cr(arm, imp), 1e-3); av1 = v(reg.get<angvel>(e)); }
                    break;
                case 2: case 3: if (k) break; m = x == 2 ? 0.5 : 7; set_rigidbody_mass(reg, e, scalar(m)); within("mass", std::abs(reg.get<edyn::mass>(e) - m), 1e-6); break;
                case 4: case 5: { if (k) break; matrix3x3 n = diagonal_matrix(vector3{3, 1, 2}); if (x == 5) n = matrix3x3{vector3{2, scalar(0.3), 0}, vector3{scalar(0.3), 1, scalar(-0.1)}, vector3{0, scalar(-0.1), 3}}; set_rigidbody_inertia(reg, e, n); I = m3(n); break; }
                case 6: case 7: case 8: { com = COMS[x - 6]; set_center_of_mass(reg, e, ev(com)); lv1 = lv + cr(av, og + rot(r, com) - p); VP_CHECK(reg.all_of<center_of_mass>(e) == (x > 6), "there is a centre of mass or none against what was set"); break; }
                case 9: og1 = {4, -1, 0.5}; set_rigidbody_origin(reg, e, ev(og1)); break;
                case 10: w.tick(); stepped = true; break;
                case 11: if (k == 0) break; { V np{2, 0, -4}; set_kinematic_position(reg, e, ev(np), scalar(0.5)); lv1 = 2.0 * (np - p); og1 = np - rot(r, com); if (reg.all_of<center_of_mass>(e)) rigidbody_update_origin(reg, e); break; }
            }
            if (!stepped) { same("the origin", v(get_rigidbody_origin(reg, e)), og1); same("the velocity", v(reg.get<linvel>(e)), lv1); same("the angular velocity", v(reg.get<angvel>(e)), av1); }
            body_ok(reg, e, stepped); vp::states(); vp::transitions();
        }
        w.tick(); body_ok(reg, e, true);
    }
}
// Moving a kinematic body gives it the velocity that takes it there.
VP_SCENARIO(body_kinematic) {
    std::vector<Q> os; int S = vp::thorough() ? 4 : 3;
    for (V a : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{1, 1, 0}, V{1, -2, 3}, V{-0.2, 0.1, 0.9}}) for (int i = -S; i <= S; ++i) for (double e : {0.0, 1e-4, 0.02}) os.push_back(turn(a, M_PI * i / S + e));
    for (auto &a : os) for (auto &b : os) for (double dt0 : {1.0 / 60, 1.0, 0.001}) {
        if (!vp::begin()) continue;
        auto d = label("from (%g %g %g %g) to (%g %g %g %g) in %g", a.x, a.y, a.z, a.w, b.x, b.y, b.z, b.w, dt0); vp::describer() = [d] { return d; };
        entt::registry reg; auto e = reg.create(); reg.emplace<kinematic_tag>(e); reg.emplace<orientation>(e, eq(a)); reg.emplace<position>(e, vector3{1, 2, 3}); reg.emplace<linvel>(e); reg.emplace<angvel>(e);
        set_kinematic_orientation(reg, e, eq(b), scalar(dt0)); set_kinematic_position(reg, e, vector3{-2, 5, 4}, scalar(dt0));
        V w = v(reg.get<angvel>(e)); Q r = qm(turn(len(w) > 0 ? w : V{1, 0, 0}, len(w) * dt0), a);
        VP_CHECK(std::isfinite(len(w)), "the angular velocity is not a number");
        within("rotation beyond a half turn", len(w) * dt0 - M_PI, 2e-3);
        double c = std::abs(r.x * b.x + r.y * b.y + r.z * b.z + r.w * b.w); within("cosine between the orientation reached and the one given", 1 - c, 2e-6);
        within("angle between the orientation reached and the one given", 2 * len({(r.w * b.x - r.x * b.w) - (r.y * b.z - r.z * b.y), (r.w * b.y - r.y * b.w) - (r.z * b.x - r.x * b.z), (r.w * b.z - r.z * b.w) - (r.x * b.y - r.y * b.x)}), 3e-3);
        same("the position reached", V{1, 2, 3} + dt0 * v(reg.get<linvel>(e)), {-2, 5, 4}); same("the position", v(reg.get<position>(e)), {-2, 5, 4});
        VP_CHECK(reg.get<orientation>(e) == orientation{eq(b)}, "the orientation was not set"); vp::states();
    }
}
// Another shape is collided with as if the body had had it from the start, after any history of shapes.
VP_SCENARIO(body_shape) {
    for (int k = 0; k < 3; ++k) for (int a = 0; a <= SHAPES; ++a) for (int b = 0; b <= SHAPES; ++b) for (int c2 = 0; c2 <= SHAPES; c2 += vp::thorough() ? 1 : 3) for (int com = 0; com < 2; ++com) for (int st = 0; st < 4; ++st) {
        if (!vp::begin()) continue;
        auto d = label("%s %s, then %s, then %s; centre of mass %d, steps between %d", KIND[k], NAMES[a], NAMES[b], NAMES[c2], com, st); vp::describer() = [d] { return d; };
        sim::base w; auto &reg = w.reg; set_gravity(reg, vector3_zero);
        rigidbody_def f; f.kind = KINDS[k]; f.shape = shape(a); f.position = vector3{1, 2, 3}; f.orientation = eq(ORNS[2]); f.mass = 2; f.inertia = diagonal_matrix(vector3{1, 2, 3}); f.sleeping_disabled = true;
        if (com) f.center_of_mass = ev(COMS[1]);
        auto e = make_rigidbody(reg, f);
        if (st & 1) w.tick();
        rigidbody_set_shape(reg, e, shape(b)); if (st & 2) w.tick();
        rigidbody_set_shape(reg, e, shape(c2));
        body_ok(reg, e, true);
        VP_CHECK(rigidbody_has_shape(reg, e) == (c2 != NOTHING) && reg.all_of<AABB>(e) == (c2 != NOTHING), "the body has a shape or a box it should not have");
        int num = 0; if (reg.all_of<box_shape>(e)) ++num; if (reg.all_of<sphere_shape>(e)) ++num; if (reg.all_of<cylinder_shape>(e)) ++num; if (reg.all_of<capsule_shape>(e)) ++num; if (reg.all_of<polyhedron_shape>(e)) ++num; if (reg.all_of<compound_shape>(e)) ++num;
        VP_CHECK(num == (c2 != NOTHING), "the body has %d shapes", num);
        // A probe at each side, just inside of the box of the shape, has a manifold after one step; outside it has none.
        if (c2 != NOTHING) {
            AABB box = bounds(*shape(c2), v(get_rigidbody_origin(reg, e)), ORNS[2]); std::vector<std::pair<entt::entity, bool>> probes;
            for (int i = 0; i < 6; ++i) for (double off : {-0.05, 0.3}) {
                V p = 0.5 * (v(box.min) + v(box.max)), n{i / 2 == 0 ? (i % 2 ? 1. : -1.) : 0, i / 2 == 1 ? (i % 2 ? 1. : -1.) : 0, i / 2 == 2 ? (i % 2 ? 1. : -1.) : 0}; V h = 0.5 * (v(box.max) - v(box.min));
                V at = p + (std::abs(dt(n, h)) + 0.05 + off) * n;
                rigidbody_def g; g.shape = sphere_shape{scalar(0.05)}; g.position = ev(at); g.mass = scalar(0.001); g.collision_group = 2; g.collision_mask = ~2ull; g.material.reset(); probes.push_back({make_rigidbody(reg, g), off < 0});
            }
            w.tick();
            for (size_t i = 0; i < probes.size(); ++i) VP_CHECK(manifold_exists(reg, e, probes[i].first) == probes[i].second, "a body %s side %zu of the box %s a manifold", probes[i].second ? "at" : "away from", i / 2, probes[i].second ? "has not got" : "has");
        } else w.tick();
        body_ok(reg, e, true); vp::states(3); vp::transitions(3);
    }
}
// The friction of a body is that of its contacts, unless a table says otherwise.
VP_SCENARIO(body_friction) {
    for (int order = 0; order < 2; ++order) for (int k = 0; k < 3; ++k) for (int table = 0; table < 2; ++table) for (int sensor = 0; sensor < 2; ++sensor) for (double fa : {0.0, 0.2, 0.9}) for (double fb : {0.3, 1.0}) for (int who = 0; who < 2; ++who) {
        if (!vp::begin()) continue;
        auto d = label("order %d, %s, table %d, sensor %d, friction %g of body %d, the other's %g", order, KIND[k], table, sensor, fa, who, fb); vp::describer() = [d] { return d; };
        sim::base w; auto &reg = w.reg;
        if (table) { material_base t; t.friction = scalar(0.77); insert_material_mixing(reg, 3, 5, t); }
        auto mk = [&](bool floor) { rigidbody_def f; f.sleeping_disabled = true; material m; m.id = floor ? 3 : 5; m.friction = scalar(fb); f.material = m; if (floor) { f.kind = KINDS[k]; f.mass = 1000; f.gravity = vector3_zero; f.shape = box_shape{vector3{3, 1, 3}}; f.position = vector3{0, -1, 0}; } else { f.shape = box_shape{vector3{scalar(0.4), scalar(0.3), scalar(0.5)}}; f.position = vector3{0, scalar(0.3), 0}; if (sensor) f.material.reset(); } return make_rigidbody(reg, f); };
        entt::entity b[2]; if (order) { b[0] = mk(true); b[1] = mk(false); } else { b[1] = mk(false); b[0] = mk(true); }
        rigidbody_def far; far.shape = sphere_shape{scalar(0.3)}; far.position = vector3{2, scalar(0.3), 0}; material fm; fm.friction = scalar(0.4); far.material = fm; auto third = make_rigidbody(reg, far);
        for (int i = 0; i < 3; ++i) w.tick();
        if (sensor && who == 1) { vp::states(); continue; }
        set_rigidbody_friction(reg, b[who], scalar(fa));
        size_t n[2] = {};
        for (auto [c, l] : reg.view<contact_point_list>().each()) {
            auto &m = reg.get<contact_manifold>(l.parent); auto has = [&](entt::entity e) { return m.body[0] == e || m.body[1] == e; };
            auto *mat = reg.try_get<contact_point_material>(c);
            if (has(b[0]) && has(b[1])) { ++n[0]; VP_CHECK(bool(mat) == !sensor, "a sensor's contact has a material or another has none"); if (mat) within("friction of the contact", std::abs(mat->friction - (table ? 0.77 : std::sqrt(fa * fb))), 1e-6); }
            else if (has(b[0]) && has(third)) { ++n[1]; within("friction of the other contact", std::abs(mat->friction - std::sqrt((who == 0 ? fa : fb) * 0.4)), 1e-6); }
        }
        VP_CHECK(n[0] > 0 && n[1] > 0, "there are no contacts"); vp::states(); vp::transitions();
        for (int i = 0; i < 3; ++i) { w.tick(); for (auto [c, l, mat] : reg.view<contact_point_list, contact_point_material>().each()) { auto &m = reg.get<contact_manifold>(l.parent); auto has = [&](entt::entity e) { return m.body[0] == e || m.body[1] == e; }; if (has(b[0]) && has(b[1])) within("friction of the contact, later", std::abs(mat.friction - (table ? 0.77 : std::sqrt(fa * fb))), 1e-6); } }
    }
}
