// The multithreaded mode computes what the sequential mode does, whatever the schedule of its worker threads.
#include "simworld.hpp"
#include "jobs.hpp"
#include "edyn/comp/roll_direction.hpp"
#include "edyn/constraints/hinge_constraint.hpp"
#include "edyn/constraints/point_constraint.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include "edyn/util/constraint_util.hpp"
#include <cstring>
using namespace edyn;
namespace {
using words = std::vector<uint32_t>;
void put(words &w, scalar x) { uint32_t u; float f = float(x); std::memcpy(&u, &f, 4); w.push_back(u == 0x80000000u ? 0 : u); }
void put(words &w, const vector3 &v) { put(w, v.x); put(w, v.y); put(w, v.z); }
// All that the bodies and their contacts are.
void state(entt::registry &reg, const std::vector<entt::entity> &bodies, words &w) {
    for (auto e : bodies) {
        put(w, reg.get<position>(e)); auto &q = reg.get<orientation>(e); put(w, q.x); put(w, q.y); put(w, q.z); put(w, q.w);
        if (auto *v = reg.try_get<linvel>(e)) { put(w, *v); put(w, reg.get<angvel>(e)); }
        if (auto *o = reg.try_get<origin>(e)) put(w, *o);
        if (auto *a = reg.try_get<AABB>(e)) { put(w, a->min); put(w, a->max); }
        if (reg.all_of<dynamic_tag>(e)) for (int i = 0; i < 3; ++i) put(w, reg.get<inertia_world_inv>(e)[i]);
    }
    for (size_t i = 0; i < bodies.size(); ++i) for (size_t j = 0; j < bodies.size(); ++j) if (i != j && manifold_exists(reg, bodies[i], bodies[j])) {
        auto m = get_manifold_entity(reg, bodies[i], bodies[j]); auto &s = reg.get<contact_manifold_state>(m);
        w.push_back(uint32_t(1000 * i + j)); w.push_back(s.num_points);
        for (auto c = s.contact_entity; c != entt::null; c = reg.get<contact_point_list>(c).next) {
            auto &p = reg.get<contact_point>(c); put(w, p.pivotA); put(w, p.pivotB); put(w, p.normal); put(w, reg.get<contact_point_geometry>(c).distance);
            if (auto *x = reg.try_get<contact_point_impulse>(c)) { put(w, x->normal_impulse); put(w, x->friction_impulse[0]); put(w, x->friction_impulse[1]); }
            if (auto *x = reg.try_get<contact_point_roll_friction_impulse>(c)) put(w, x->rolling_friction_impulse[0]);
        }
    }
}
entt::entity make(entt::registry &reg, rigidbody_kind k, std::optional<shapes_variant_t> s, vector3 p, bool com = false) {
    rigidbody_def d; d.kind = k; d.shape = s; d.position = p; d.mass = 2; d.sleeping_disabled = true;
    if (com) d.center_of_mass = vector3{scalar(0.1), scalar(-0.2), scalar(0.05)};
    if (!s) d.inertia = diagonal_matrix(vector3{1, 2, 3});
    material m; m.friction = scalar(0.5); m.roll_friction = scalar(0.01); m.spin_friction = scalar(0.02); d.material = m;
    if (k == rigidbody_kind::rb_dynamic) { d.linvel = vector3{scalar(0.3), scalar(-0.1), scalar(0.2)}; d.angvel = vector3{scalar(0.1), scalar(0.4), scalar(-0.2)}; }
    return make_rigidbody(reg, d);
}
struct world { const char *name; int kind, n, steps, velocity_iterations, position_iterations, restitution; };
std::vector<entt::entity> build(entt::registry &reg, const world &w) {
    std::vector<entt::entity> b; auto dyn = rigidbody_kind::rb_dynamic;
    set_solver_velocity_iterations(reg, w.velocity_iterations); set_solver_position_iterations(reg, w.position_iterations); set_solver_restitution_iterations(reg, w.restitution);
    auto at = [&](int i, double h) { return vector3{scalar(3 * (i % 8)), scalar(h), scalar(3 * (i / 8))}; };
    switch (w.kind) {
        case 0: // on one static floor
            b.push_back(make(reg, rigidbody_kind::rb_static, plane_shape{vector3{0, 1, 0}, 0}, vector3{0, 0, 0}));
            for (int i = 0; i < w.n; ++i) b.push_back(i % 2 ? make(reg, dyn, sphere_shape{scalar(0.5)}, at(i, 0.49)) : make(reg, dyn, box_shape{vector3{scalar(0.5), scalar(0.4), scalar(0.3)}}, at(i, 0.39), i % 4 == 0));
            break;
        case 1: // jointed to one kinematic body
            b.push_back(make(reg, rigidbody_kind::rb_kinematic, {}, vector3{0, 0, 0}, true));
            reg.get<angvel>(b[0]) = vector3{0, 1, 0};
            for (int i = 0; i < w.n; ++i) {
                b.push_back(make(reg, dyn, sphere_shape{scalar(0.5)}, at(i, 2), i % 2));
                if (i % 2) make_constraint<hinge_constraint>(reg, b[0], b.back(), [&](hinge_constraint &c) { c.set_axes(vector3{0, 0, 1}, vector3{0, 0, 1}); c.pivot[0] = at(i, 1); c.pivot[1] = vector3{0, scalar(-1.1), 0}; });
                else make_constraint<point_constraint>(reg, b.back(), b[0], [&](point_constraint &c) { c.pivot[1] = at(i, 1); c.pivot[0] = vector3{scalar(0.1), -1, 0}; });
            }
            break;
        case 2: // chains on a static body, through which they touch no other
            b.push_back(make(reg, rigidbody_kind::rb_static, {}, vector3{0, 0, 0}));
            for (int i = 0; i < w.n; ++i) for (int k = 0; k < 2; ++k) {
                auto p = k ? b.back() : b[0]; b.push_back(make(reg, dyn, {}, at(i, -1 - k)));
                make_constraint<point_constraint>(reg, p, b.back(), [&](point_constraint &c) { c.pivot[0] = k ? vector3{0, scalar(-0.4), 0} : at(i, 0); c.pivot[1] = vector3{0, scalar(0.6), 0}; });
            }
            break;
        case 3: // one large island: more bodies than are integrated at once
            for (int i = 0; i < w.n; ++i) { b.push_back(make(reg, dyn, {}, at(i, 0))); if (i) make_constraint<point_constraint>(reg, b[i - 1], b[i], [&](point_constraint &c) { c.pivot[0] = vector3{scalar(1.5), 0, 0}; c.pivot[1] = vector3{scalar(-1.5), 0, 0}; }); }
            b.push_back(make(reg, dyn, {}, at(0, 20)));
            break;
    }
    return b;
}
words run(const world &w, execution_mode mode, int workers) {
    words out; entt::registry reg;
    init_config cfg; cfg.execution_mode = mode; cfg.timestamp = 0.0; cfg.num_worker_threads = workers;
    if (mode == execution_mode::sequential) { cfg.enqueue_task = &sim::run_now; cfg.enqueue_task_wait = &sim::run_wait; }
    attach(reg, cfg); set_paused(reg, true);
    auto b = build(reg, w); double now = 0;
    for (int i = 0; i < w.steps; ++i) { now += 1. / 60; step_simulation(reg, now); state(reg, b, out); }
    detach(reg);
    return out;
}
void go(const world &w, int workers, int pb) {
    if (!vp::begin()) return;
    vp::describe("%s, %d, %d workers, %d steps, %d and %d iterations, %d deviations", w.name, w.n, workers, w.steps, w.velocity_iterations, w.position_iterations, pb);
    auto ref = run(w, execution_mode::sequential, 0);
    job_dispatcher::global();
    mc::options o; o.preemptions = pb; o.delays = true; o.max_steps = 200000;
    auto r = mc::explore(o, [&] {
        auto &d = job_dispatcher::global();
        d.~job_dispatcher(); std::memset((void *)&d, 0, sizeof d); new (&d) job_dispatcher();
        auto got = run(w, execution_mode::sequential_multithreaded, workers);
        d.stop();
        d.~job_dispatcher(); std::memset((void *)&d, 0, sizeof d); new (&d) job_dispatcher();
        size_t i = 0; while (i < got.size() && i < ref.size() && got[i] == ref[i]) ++i;
        mc::check(got.size() == ref.size() && i == ref.size(), "the result differs from that of the sequential mode at word %zu of %zu", i, ref.size());
    });
    cap_note(r, vp::st().desc);
}
}
VP_SCENARIO(threads_small) { go({"boxes and spheres on a floor", 0, 2, 2, 2, 1, 0}, 1, 1); }
VP_SCENARIO(threads_two) { go({"boxes and spheres on a floor", 0, 2, 2, 2, 1, 0}, 2, 1); }
VP_SCENARIO(threads_contacts) { go({"boxes and spheres on a floor", 0, 6, 2, 1, 1, 1}, 2, 1); }
VP_SCENARIO(threads_broad) { go({"boxes and spheres on a floor", 0, 10, 2, 1, 1, 0}, 2, 1); }
VP_SCENARIO(threads_joints) { go({"bodies jointed to a kinematic one", 1, 5, 2, 1, 2, 0}, 2, 1); }
VP_SCENARIO(threads_chains) { go({"chains on a static body", 2, 3, 2, 1, 2, 0}, 2, 1); }
VP_SCENARIO(threads_large) { go({"a chain of bodies and another body", 3, 66, 1, 1, 1, 0}, 2, 1); }
