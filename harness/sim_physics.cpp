// Bodies in contact: resting, sliding, bouncing, rolling and colliding, for every combination of the grids below.
#include "simworld.hpp"
#include "dvec.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/math/matrix3x3.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
using namespace edyn;
namespace {
std::shared_ptr<convex_mesh> block(double x, double y, double z) {
    auto m = std::make_shared<convex_mesh>();
    for (int i = 0; i < 8; ++i) m->vertices.push_back(ev({i & 1 ? x : -x, i & 2 ? y : -y, i & 4 ? z : -z}));
    const int f[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
    for (auto &k : f) { m->faces.push_back(uint32_t(m->indices.size())); m->faces.push_back(4); for (int i : k) m->indices.push_back(uint32_t(i)); }
    m->initialize(); return m;
}
struct item { const char *name; shapes_variant_t shape; Q orn; double height; bool rolls; };
std::vector<item> items() {
    std::vector<item> r; Q up, zx = turn({0, 0, 1}, M_PI / 2), xy = turn({1, 0, 0}, M_PI / 2), flip = turn({1, 0, 0}, M_PI), yaw = turn({0, 1, 0}, 0.7);
    r.push_back({"sphere", sphere_shape{scalar(0.4)}, turn({1, 2, 3}, 1), 0.4, true});
    box_shape b{vector3{scalar(0.4), scalar(0.3), scalar(0.5)}};
    r.push_back({"box", b, up, 0.3, false}); r.push_back({"box on x", b, zx, 0.4, false}); r.push_back({"box on z", b, xy, 0.5, false}); r.push_back({"box turned", b, qm(yaw, flip), 0.3, false});
    for (auto ax : {coordinate_axis::x, coordinate_axis::y, coordinate_axis::z}) {
        cylinder_shape c{scalar(0.3), scalar(0.4), ax}; Q o = ax == coordinate_axis::x ? up : ax == coordinate_axis::y ? zx : up; // lying
        r.push_back({"cylinder lying", c, qm(yaw, o), 0.3, true});
        Q s = ax == coordinate_axis::x ? zx : ax == coordinate_axis::y ? flip : xy; r.push_back({"cylinder standing", c, s, 0.4, false});
        capsule_shape k{scalar(0.2), scalar(0.3), ax}; r.push_back({"capsule lying", k, qm(yaw, o), 0.2, true});
    }
    r.push_back({"polyhedron", polyhedron_shape{block(0.4, 0.3, 0.5)}, qm(yaw, zx), 0.4, false});
    compound_shape c; c.add_shape(box_shape{vector3{scalar(0.2), scalar(0.2), scalar(0.2)}}, vector3{scalar(0.4), 0, 0}, quaternion_identity); c.add_shape(sphere_shape{scalar(0.2)}, vector3{scalar(-0.4), 0, scalar(0.3)}, quaternion_identity); c.add_shape(sphere_shape{scalar(0.2)}, vector3{scalar(-0.4), 0, scalar(-0.3)}, quaternion_identity); c.finish();
    r.push_back({"compound", c, yaw, 0.2, false});
    return r;
}
const char *FLOORS[] = {"plane", "box", "mesh", "polyhedron", "kinematic box", "compound", "dynamic box"};
struct world : sim::base {
    double down = 0; Q tilt; std::vector<entt::entity> b; std::vector<double> m; entt::entity ground = entt::null; material mat;
    world(V g, Q tilt = {}, unsigned restitution_iterations = 8) : tilt(tilt) { set_gravity(reg, ev(rot(tilt, g))); set_solver_restitution_iterations(reg, restitution_iterations); }
    quaternion eq(Q o) { return {scalar(o.x), scalar(o.y), scalar(o.z), scalar(o.w)}; }
    entt::entity floor(int k, Q slope = {}) {
        rigidbody_def d; d.kind = k == 4 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static; d.orientation = eq(qm(tilt, slope)); d.material = mat; V below{};
        switch (k) {
            case 0: d.shape = plane_shape{ev(rot(qm(tilt, slope), {0, 1, 0})), scalar(-down)}; d.orientation = quaternion_identity; break; // planes and meshes are not turned by their body
            case 1: case 4: d.shape = box_shape{vector3{20, 1, 20}}; below = {0, -1, 0}; break;
            case 2: { auto tm = std::make_shared<triangle_mesh>(); std::vector<vector3> vs; std::vector<uint32_t> ix; const int N = 8; double s = 2.5;
                for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) vs.push_back(ev(rot(qm(tilt, slope), {(i - N / 2 + 0.13) * s, 0, (j - N / 2 + 0.21) * s})));
                for (uint32_t i = 0; i < N; ++i) for (uint32_t j = 0; j < N; ++j) { uint32_t a = i * (N + 1) + j, c = a + 1, e = a + N + 1, f = e + 1; for (auto x : {a, c, e, c, f, e}) ix.push_back(x); }
                tm->insert_vertices(vs.begin(), vs.end()); tm->insert_indices(ix.begin(), ix.end()); tm->initialize(); d.shape = mesh_shape{tm}; d.orientation = quaternion_identity; break; }
            case 3: d.shape = polyhedron_shape{block(6, 1, 6)}; below = {0, -1, 0}; break;
            case 5: { compound_shape c; c.add_shape(box_shape{vector3{5, 1, 10}}, vector3{-5, -1, 0}, quaternion_identity); c.add_shape(box_shape{vector3{5, 1, 10}}, vector3{5, -1, 0}, quaternion_identity); c.finish(); d.shape = c; break; }
        }
        d.position = ev(rot(qm(tilt, slope), below));
        return ground = make_rigidbody(reg, d);
    }
    entt::entity add(const shapes_variant_t &s, V pos, Q orn, V lv = {}, V av = {}, double mass = 2, bool com = false) {
        rigidbody_def d; d.shape = s; d.position = ev(rot(tilt, pos)); d.orientation = eq(qm(tilt, orn)); d.linvel = ev(rot(tilt, lv)); d.angvel = ev(rot(tilt, av)); d.mass = scalar(mass); d.material = mat; d.sleeping_disabled = true;
        if (com) d.center_of_mass = vector3{scalar(0.02), scalar(-0.03), scalar(0.01)};
        auto e = make_rigidbody(reg, d); b.push_back(e); m.push_back(mass); return e;
    }
    V pos(size_t i) { auto *o = reg.try_get<origin>(b[i]); return rot(qc(tilt), v(o ? vector3(*o) : vector3(reg.get<position>(b[i])))); }
    V at(size_t i) { return rot(qc(tilt), v(reg.get<position>(b[i]))); }
    V lv(size_t i) { return rot(qc(tilt), v(reg.get<linvel>(b[i]))); }
    V av(size_t i) { return rot(qc(tilt), v(reg.get<angvel>(b[i]))); }
    Q orn(size_t i) { return qm(qc(tilt), q(reg.get<orientation>(b[i]))); }
    double kinetic(size_t i) { V w = rot(qc(q(reg.get<orientation>(b[i]))), v(reg.get<angvel>(b[i]))); auto I = reg.get<inertia>(b[i]); V L = v(matrix3x3(I) * ev(w)); return m[i] * dt(lv(i), lv(i)) / 2 + dt(w, L) / 2; }
    // Sum of the normal impulses on a body.
    double support(size_t i) { double s = 0; for (auto [e, c, l, p] : reg.view<contact_point, contact_point_list, contact_point_impulse>().each()) { auto &mf = reg.get<contact_manifold>(l.parent); if (mf.body[0] == b[i]) s += dt(rot(qc(tilt), v(c.normal)), {0, 1, 0}) * p.normal_impulse; if (mf.body[1] == b[i]) s -= dt(rot(qc(tilt), v(c.normal)), {0, 1, 0}) * p.normal_impulse; } return s; }
    void go() { tick(); vp::transitions(); vp::states(); for (size_t i = 0; i < b.size(); ++i) VP_CHECK(std::isfinite(len(pos(i))) && std::isfinite(len(lv(i))) && std::isfinite(len(av(i))) && std::isfinite(orn(i).w), "body %zu is nowhere", i); }
};
const V G{0, -9.8, 0};
const Q TILTS[] = {{}, turn({1, 0, 2}, 1.1), turn({0, 0, 1}, M_PI)};
std::string label(const char *f, ...) { char s[200]; va_list a; va_start(a, f); std::vsnprintf(s, sizeof s, f, a); va_end(a); return s; }
}
// What is put on a floor stays there.
VP_SCENARIO(rest) {
    for (auto &it : items()) for (int fl = 0; fl < 6; ++fl) for (int t = 0; t < 3; ++t) for (int com = 0; com < 2; ++com) for (double gap : {0.0, 0.03, -0.01}) for (int at = 0; at < 2; ++at) {
        if (!vp::begin()) continue;
        auto d = label("%s on %s, tilt %d, centre of mass %d, gap %g, place %d", it.name, FLOORS[fl], t, com, gap, at); vp::describer() = [d] { return d; }; if (std::getenv("VP_TAG")) tag() = label(", %s on %s", it.name, FLOORS[fl]);
        world w(G, TILTS[t]); w.floor(fl); w.add(it.shape, {at * 0.9, it.height + gap, at * 0.4}, it.orn, {}, {}, 2, com && !it.rolls);
        V p0 = w.pos(0); double e0 = 2 * 9.8 * std::max(gap, 0.0);
        for (int s = 0; s < 120; ++s) {
            w.go();
            V p = w.pos(0);
            within("sinks into the floor", it.height - p.y - std::max(-gap, 0.0), 0.03);
            within("leaves the floor", p.y - it.height - std::max(gap, 0.0), 0.005);
            within("energy from a floor", w.kinetic(0) + 2 * 9.8 * (p.y - p0.y) - (gap < 0 ? 0.2 : 0), 0.01);
            if (s >= 90) {
                within("does not come to rest", len(w.lv(0)), 0.05);
                if (!it.rolls) { within("wanders", std::hypot(p.x - p0.x, p.z - p0.z), 0.03); }
                V upl = rot(w.orn(0), rot(qc(it.orn), {0, 1, 0})); if (!it.rolls) within("falls over", std::acos(std::min(1., upl.y)), 0.05);
                within("weight not carried", std::abs(w.support(0) * 60 / (2 * 9.8) - 1), 0.05);
            }
        }
        (void)e0;
        vp::nontrivial(true); vp::describer() = nullptr;
    }
}
// Sliding bodies are slowed down by friction as much as its coefficient says.
VP_SCENARIO(slide) {
    for (auto &it : items()) for (int fl = 0; fl < 6; ++fl) for (int dir = 0; dir < 8; ++dir) for (double mu : {0.0, 0.2, 0.5}) for (int t = 0; t < 2; ++t) {
        if (it.rolls || !vp::begin()) continue;
        auto d = label("%s on %s, direction %d, friction %g, tilt %d", it.name, FLOORS[fl], dir, mu, t); vp::describer() = [d] { return d; }; if (std::getenv("VP_TAG")) tag() = label(", %s on %s", it.name, FLOORS[fl]);
        world w(G, TILTS[t]); w.mat.friction = scalar(mu); w.floor(fl); double a = dir * M_PI / 4 + 0.1; V out{std::cos(a), 0, std::sin(a)}; double v0 = 1.5;
        w.add(it.shape, {0.1, it.height, -0.2}, it.orn, v0 * out); V p0 = w.pos(0); double got = mu;
        double vel = v0;
        for (int s = 0; s < 90; ++s) {
            w.go();
            for (auto [e, cm] : w.reg.view<contact_point_material>().each()) got = cm.friction;
            vel = std::max(0.0, vel - got * 9.8 / 60);
            double u = dt(w.lv(0), out); within("friction too strong", vel - u, 0.2); within("friction too weak", u - vel, 0.3);
            V side = w.lv(0) - u * out; side.y = 0; within("slides sideways", len(side), 0.3);
            within("hops", w.pos(0).y - it.height, 0.02);
        }
        (void)p0; vp::nontrivial(true); vp::describer() = nullptr;
    }
}
// On a slope.
VP_SCENARIO(slopes) {
    for (auto &it : items()) for (int fl = 0; fl < 6; ++fl) for (int dir = 0; dir < 4; ++dir) for (int steep = 0; steep < 2; ++steep) {
        if (it.rolls || !vp::begin()) continue;
        auto d = label("%s on %s, direction %d, %s", it.name, FLOORS[fl], dir, steep ? "steep" : "gentle"); vp::describer() = [d] { return d; }; if (std::getenv("VP_TAG")) tag() = label(", %s on %s", it.name, FLOORS[fl]);
        // The slope is made by turning the whole world but not gravity.
        double ang = 0.3; double a = dir * M_PI / 2 + 0.2; V down{std::cos(a), 0, std::sin(a)}; double mu = steep ? 0.2 : 0.7;
        world w(9.8 * (std::sin(ang) * down - std::cos(ang) * V{0, 1, 0})); w.mat.friction = scalar(mu); w.floor(fl); w.add(it.shape, {0.1, it.height, -0.2}, it.orn);
        double c = 0, vel = 0; V p0 = w.pos(0);
        for (int s = 0; s < 90; ++s) {
            w.go(); for (auto [e, cm] : w.reg.view<contact_point_material>().each()) c = cm.friction;
            if (s == 0) continue;
            if (c > std::tan(ang) * 1.1) { within("slips on a gentle slope", len(w.pos(0) - p0), 0.05); }
            else { vel = 9.8 * (std::sin(ang) - c * std::cos(ang)) * (s + 1) / 60; double u = dt(w.lv(0), down); within("slides too slowly", vel - u, 0.15 * vel + 0.15); within("slides too fast", u - vel, 0.15 * vel + 0.15); }
        }
        vp::nontrivial(c > 0); vp::describer() = nullptr;
    }
}
// Dropped spheres and boxes bounce as high as their restitution says.
VP_SCENARIO(bounce) {
    auto its = items();
    for (auto &it : its) for (int fl = 0; fl < 6; ++fl) for (double e : {0.0, 0.5, 0.8, 1.0}) for (double h : {0.4, 1.0}) for (int iters : {8, 0}) for (int t = 0; t < 2; ++t) {
        if (!vp::begin()) continue;
        auto d = label("%s on %s, restitution %g, height %g, restitution iterations %d, tilt %d", it.name, FLOORS[fl], e, h, iters, t); vp::describer() = [d] { return d; }; if (std::getenv("VP_TAG")) tag() = label(", %s on %s", it.name, FLOORS[fl]);
        world w(G, TILTS[t], unsigned(iters)); w.mat.restitution = scalar(e); w.mat.friction = 0; w.floor(fl); w.add(it.shape, {0.1, it.height + h, -0.2}, it.orn);
        double got = 0, peak = 0, e0 = 2 * 9.8 * h; bool hit = false, down = false;
        for (int s = 0; s < 100; ++s) {
            w.go(); for (auto [x, cm] : w.reg.view<contact_point_material>().each()) got = cm.restitution;
            double y = w.pos(0).y - it.height; if (w.lv(0).y > 0) hit = true; if (hit && w.lv(0).y < 0 && peak > 0) down = true; if (hit && !down) peak = std::max(peak, y);
            within("energy from a bounce", w.kinetic(0) + 2 * 9.8 * y - e0, 0.25 * e0 + 0.05);
            within("sinks upon impact", -y, 0.1);
            if (down) break;
        }
        within(iters ? "bounces too high" : "bounces too high (simple)", peak - got * got * h, 0.15 * h + 0.03);
        within(iters ? "bounces too low" : "bounces too low (simple)", got * got * h - peak, 0.2 * h + 0.03);
        vp::nontrivial(e > 0); vp::describer() = nullptr;
    }
}

// Rolling without slipping, with and without rolling friction. The floor is turned about the vertical, which must not matter.
VP_SCENARIO(roll) {
    for (auto &it : items()) for (int fl : {1, 4, 0, 3, 6}) for (int head = 0; head < 4; ++head) for (int yaw = 0; yaw < 4; ++yaw) for (double r : {0.0, 0.02, 0.05}) for (int first = 0; first < 2; ++first) for (int t = 0; t < 2; ++t) {
        if (!it.rolls || !vp::begin()) continue;
        Q orn = qm(turn({0, 1, 0}, head * 0.4), it.orn);
        auto d = label("%s heading %d on %s turned %d, rolling friction %g, %s made first, tilt %d", it.name, head, FLOORS[fl], yaw, r, first ? "floor" : "body", t); vp::describer() = [d] { return d; }; if (std::getenv("VP_TAG")) tag() = label(", %s on %s", it.name, FLOORS[fl]);
        world w(G, TILTS[t]); w.mat.roll_friction = scalar(r); w.mat.friction = scalar(0.9);
        bool ball = it.name == std::string("sphere"); double R = it.height; V ax = rot(orn, {1, 0, 0}); // axis of what lies
        if (auto *c = std::get_if<cylinder_shape>(&it.shape)) ax = rot(orn, c->axis == coordinate_axis::x ? V{1, 0, 0} : c->axis == coordinate_axis::y ? V{0, 1, 0} : V{0, 0, 1});
        if (auto *c = std::get_if<capsule_shape>(&it.shape)) ax = rot(orn, c->axis == coordinate_axis::x ? V{1, 0, 0} : c->axis == coordinate_axis::y ? V{0, 1, 0} : V{0, 0, 1});
        if (ball) ax = {std::cos(1.0), 0, std::sin(1.0)};
        ax.y = 0; V dir = cr(ax, {0, 1, 0}); double v0 = 1;
        // A floor, or a heavy body lying on one.
        auto under = [&] { Q o = turn({0, 1, 0}, yaw * 0.9); if (fl < 6) { w.floor(fl, o); return; } w.floor(0); w.add(box_shape{vector3{3, scalar(0.5), 3}}, {0, -0.5, 0}, o, {}, {}, 2000); };
        if (fl == 6) w.down = 1;
        if (first) under();
        w.add(it.shape, {0.1, it.height, -0.2}, orn, v0 * dir, (v0 / R) * ax);
        if (!first) under();
        size_t B = first && fl == 6 ? 1 : 0;
        double I = 0; { auto m = w.reg.get<inertia>(w.b[B]); V wl = rot(qc(orn), ax); I = dt(wl, v(matrix3x3(m) * ev(wl))); }
        double got = 0; int n = 60;
        for (int s = 0; s < n; ++s) { w.go(); for (auto [e, cm] : w.reg.view<contact_point_material>().each()) got = cm.roll_friction; }
        double a = got * 9.8 / R / (1 + I / (2 * R * R)), want = std::max(0.0, v0 - a * n / 60), u = dt(w.lv(B), dir), rolls = dt(w.av(B), ax) * R;
        within("rolls and slips", std::abs(u - rolls), 0.02); V side = w.lv(B) - u * dir; side.y = 0; within("rolls sideways", len(side), 0.1);
        within("rolling friction too strong", want - u, 0.02); within("rolling friction too weak", u - want, 0.02);
        vp::nontrivial(got > 0); vp::describer() = nullptr;
    }
}
// Spinning about the vertical.
VP_SCENARIO(spin) {
    for (auto &it : items()) for (int fl = 0; fl < 6; ++fl) for (double r : {0.0, 0.03}) for (double w0 : {3.0, -3.0}) for (int t = 0; t < 3; ++t) {
        if (it.name != std::string("sphere") || !vp::begin()) continue;
        auto d = label("%s on %s, spin friction %g, spin %g, tilt %d", it.name, FLOORS[fl], r, w0, t); vp::describer() = [d] { return d; };
        world w(G, TILTS[t]); w.mat.spin_friction = scalar(r); w.floor(fl); w.add(it.shape, {0.3, it.height, -0.2}, it.orn, {}, {0, w0, 0});
        double I = w.reg.get<inertia>(w.b[0]).row[0].x, got = 0, want = w0;
        for (int s = 0; s < 60; ++s) { w.go(); for (auto [e, cm] : w.reg.view<contact_point_material>().each()) got = cm.spin_friction; double dw = got * 2 * 9.8 / I / 60; want = std::abs(want) < dw ? 0 : want - (want > 0 ? dw : -dw); within("spin friction off", std::abs(w.av(0).y - want), r == 0 ? 0.01 : 0.3); }
        within("spinning makes it wander", len(w.pos(0) - V{0.3, it.height, -0.2}), 0.05);
        vp::nontrivial(got > 0); vp::describer() = nullptr;
    }
}
// Soft contacts carry the weight where the spring does.
VP_SCENARIO(soft) {
    for (auto &it : items()) for (int fl = 0; fl < 5; ++fl) for (double k : {1000., 4000.}) for (int t = 0; t < 2; ++t) {
        if (!vp::begin()) continue;
        auto d = label("%s on %s, stiffness %g, tilt %d", it.name, FLOORS[fl], k, t); vp::describer() = [d] { return d; }; if (std::getenv("VP_TAG")) tag() = label(", %s on %s", it.name, FLOORS[fl]);
        world w(G, TILTS[t]); w.mat.stiffness = scalar(k); w.mat.damping = 100; w.floor(fl); w.add(it.shape, {0.3, it.height - 3 * 9.8 / (k / 2), -0.2}, it.orn); double got = 0; // starts deeper than it will rest
        for (int s = 0; s < 240; ++s) { w.go(); for (auto [e, cm] : w.reg.view<contact_point_material>().each()) got = cm.stiffness; within("soft contact leaves the floor", w.pos(0).y - it.height, 0.02); }
        double depth = it.height - w.pos(0).y; within("soft contact too soft", depth - 2 * 9.8 / got, 0.003); within("soft contact too hard", (2 * 9.8 - 1.2 * 50 * 9.8 / 60) / got - depth, 0.003); // the damping also sees what gravity adds in a step within("soft contact still moves", len(w.lv(0)), 0.02);
        vp::nontrivial(got < 1e6); vp::describer() = nullptr;
    }
}
// Two bodies hit each other: momentum is conserved, they separate as fast as the restitution says and gain no energy.
VP_SCENARIO(collisions) {
    auto its = items();
    for (size_t i = 0; i < its.size(); ++i) for (size_t j = 0; j <= i; ++j) for (double e : {0.0, 0.5, 1.0}) for (double mb : {2.0, 0.5}) for (double off : {0.0, 0.15}) for (int iters : {8, 0}) for (int t = 0; t < 2; ++t) {
        if (!vp::begin()) continue;
        auto d = label("%s against %s, restitution %g, mass %g, offset %g, iterations %d, tilt %d", its[i].name, its[j].name, e, mb, off, iters, t); vp::describer() = [d] { return d; }; if (std::getenv("VP_TAG")) tag() = ", " + d;
        world w({}, TILTS[t], unsigned(iters)); w.mat.restitution = scalar(e); w.mat.friction = scalar(0.3);
        w.add(its[i].shape, {0, 0, 0}, its[i].orn, {0, -0.6, 0}, {}, 2); w.add(its[j].shape, {off, -its[i].height - its[j].height - 0.3, 0.0}, its[j].orn, {0, 1, 0}, {}, mb);
        auto P = [&] { return w.m[0] * w.lv(0) + w.m[1] * w.lv(1); };
        V p0 = P(); double k0 = w.kinetic(0) + w.kinetic(1); bool hit = false;
        for (int s = 0; s < 60; ++s) {
            V x[2] = {w.at(0), w.at(1)}; Q o[2] = {w.orn(0), w.orn(1)}; auto l = [&] { V r{}; for (size_t k = 0; k < 2; ++k) { V wl = rot(qc(o[k]), w.av(k)); r = r + cr(x[k], w.m[k] * w.lv(k)) + rot(o[k], v(matrix3x3(w.reg.get<inertia>(w.b[k])) * ev(wl))); } return r; }; V l0 = l();
            w.go(); within("momentum from a collision", len(P() - p0), 1e-3); within("angular momentum from a collision", len(l() - l0), 0.04); // where the impulses were applied
            within(iters ? "energy from a collision" : "energy from a collision (simple)", w.kinetic(0) + w.kinetic(1) - k0, (e == 1 ? 0.5 : 0.1) * k0);
            if (std::abs(w.lv(0).y + 0.6) > 1e-3) hit = true;
        }
        VP_CHECK(hit, "the bodies do not meet"); 
        within("bodies stay in each other", dt(w.lv(1) - w.lv(0), V{0, 1, 0}), 0.35);
        if (i == 0 && j == 0 && off == 0) within("restitution between spheres off", std::abs(w.lv(0).y - w.lv(1).y - 1.6 * e), 0.16);
        vp::nontrivial(true); vp::describer() = nullptr;
    }
}
// A pile of boxes.
VP_SCENARIO(piles) {
    auto its = items();
    for (auto &it : its) for (int fl = 0; fl < 6; ++fl) for (int n : {2, 3, 4}) for (int t = 0; t < 2; ++t) {
        if (it.rolls || it.name == std::string("compound") || !vp::begin()) continue;
        auto d = label("%d of %s on %s, tilt %d", n, it.name, FLOORS[fl], t); vp::describer() = [d] { return d; }; if (std::getenv("VP_TAG")) tag() = label(", %s on %s", it.name, FLOORS[fl]);
        world w(G, TILTS[t]); w.floor(fl); for (int i = 0; i < n; ++i) w.add(it.shape, {0.1 + 0.03 * i, it.height * (2 * i + 1), -0.2}, it.orn);
        for (int s = 0; s < 150; ++s) w.go();
        for (int i = 0; i < n; ++i) { within("a pile sinks or rises", std::abs(w.pos(size_t(i)).y - it.height * (2 * i + 1)), 0.08); within("a pile slips", std::hypot(w.pos(size_t(i)).x - 0.1 - 0.03 * i, w.pos(size_t(i)).z + 0.2), 0.08); within("a pile moves", len(w.lv(size_t(i))), 0.25); }
        vp::nontrivial(true); vp::describer() = nullptr;
    }
}
