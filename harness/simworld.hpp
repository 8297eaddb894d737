// A sequential simulation whose whole registry is checked for consistency.
#ifndef SIMWORLD_HPP
#define SIMWORLD_HPP
#include "vp.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/edyn.hpp"
#include "edyn/collision/broadphase.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/collision/contact_manifold_map.hpp"
#include "edyn/collision/contact_point.hpp"
#include "edyn/collision/narrowphase.hpp"
#include "edyn/collision/should_collide.hpp"
#include "edyn/comp/aabb.hpp"
#include "edyn/comp/center_of_mass.hpp"
#include "edyn/comp/origin.hpp"
#include "edyn/comp/angvel.hpp"
#include "edyn/comp/graph_edge.hpp"
#include "edyn/comp/graph_node.hpp"
#include "edyn/comp/inertia.hpp"
#include "edyn/comp/island.hpp"
#include "edyn/comp/linvel.hpp"
#include "edyn/comp/mass.hpp"
#include "edyn/comp/orientation.hpp"
#include "edyn/comp/position.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/comp/tree_resident.hpp"
#include "edyn/constraints/constraint.hpp"
#include "edyn/constraints/null_constraint.hpp"
#include "edyn/context/task.hpp"
#include "edyn/core/entity_graph.hpp"
#include "edyn/math/transform.hpp"
#include "edyn/shapes/shapes.hpp"
#include "edyn/simulation/stepper_sequential.hpp"
#include "edyn/util/aabb_util.hpp"
#include "edyn/util/constraint_util.hpp"
#include "edyn/util/contact_manifold_util.hpp"
#include "edyn/util/exclude_collision.hpp"
#include "edyn/util/rigidbody.hpp"
#include "edyn/util/settings_util.hpp"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {
using namespace edyn;
inline void run_now(task_delegate_t task, unsigned size, task_completion_delegate_t done) { task(0, size); if (done) done(); }
inline void run_wait(task_delegate_t task, unsigned size) { task(0, size); }

struct base {
    entt::registry reg;
    double now = 0;
    bool attached = false;
    explicit base(execution_mode mode = execution_mode::sequential) { start(mode); }
    void start(execution_mode mode) {
        init_config cfg; cfg.execution_mode = mode; cfg.timestamp = 0.0;
        cfg.enqueue_task = &run_now; cfg.enqueue_task_wait = &run_wait;
        attach(reg, cfg);
        set_paused(reg, true);
        attached = true; now = 0;
    }
    void stop() { detach(reg); attached = false; }
    ~base() { if (attached) stop(); }
    void tick() { now += 1. / 60; step_simulation(reg, now); }
    island_manager &mgr() { return reg.ctx().get<stepper_sequential>().get_island_manager(); }
};

inline bool finite(const vector3 &v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }

// Everything that must hold between two steps, whatever happened before. Island membership is complete only right after a step.
inline void consistent(entt::registry &reg, const std::function<std::string(entt::entity)> &name) {
    auto &graph = reg.ctx().get<entity_graph>();
    auto &map = reg.ctx().get<contact_manifold_map>();
    // Bodies.
    for (auto e : reg.view<rigidbody_tag>()) {
        int kinds = int(reg.all_of<dynamic_tag>(e)) + int(reg.all_of<static_tag>(e)) + int(reg.all_of<kinematic_tag>(e));
        VP_CHECK(kinds == 1, "%s is of %d kinds", name(e).c_str(), kinds);
        VP_CHECK(reg.all_of<dynamic_tag>(e) == reg.all_of<procedural_tag>(e), "%s is dynamic but not procedural or the reverse", name(e).c_str());
        VP_CHECK(reg.all_of<graph_node>(e), "%s is not in the graph", name(e).c_str());
        VP_CHECK(graph.node_entity(reg.get<graph_node>(e).node_index) == e, "the graph has something else for %s", name(e).c_str());
        VP_CHECK(finite(reg.get<position>(e)), "%s is nowhere", name(e).c_str());
        VP_CHECK(reg.all_of<origin>(e) == reg.all_of<center_of_mass>(e), "%s has an origin but no centre of mass or the reverse", name(e).c_str());
        if (auto *a = reg.try_get<AABB>(e)) VP_CHECK(finite(a->min) && finite(a->max), "the box of %s is off", name(e).c_str());
        VP_CHECK(reg.all_of<AABB>(e) == reg.all_of<shape_index>(e), "%s has a shape and no box or the reverse", name(e).c_str());
        auto q = reg.get<orientation>(e); double l = std::sqrt(double(q.x) * q.x + double(q.y) * q.y + double(q.z) * q.z + double(q.w) * q.w);
        VP_CHECK(std::abs(l - 1) < 1e-3, "the orientation of %s has length %g", name(e).c_str(), l);
        if (auto *v = reg.try_get<linvel>(e)) VP_CHECK(finite(*v) && finite(reg.get<angvel>(e)), "%s moves infinitely fast", name(e).c_str());
    }
    // Constraints and contacts are edges between their bodies.
    size_t num = 0;
    auto edge_ok = [&](entt::entity e, entt::entity a, entt::entity b) {
        VP_CHECK(reg.valid(a) && reg.valid(b) && reg.all_of<rigidbody_tag>(a) && reg.all_of<rigidbody_tag>(b), "%s connects a body that does not exist", name(e).c_str());
        VP_CHECK(reg.all_of<graph_edge>(e), "%s is not in the graph", name(e).c_str());
        auto p = graph.edge_node_entities(reg.get<graph_edge>(e).edge_index);
        VP_CHECK((p.first == a && p.second == b) || (p.first == b && p.second == a), "%s connects other bodies in the graph", name(e).c_str());
        VP_CHECK(graph.edge_entity(reg.get<graph_edge>(e).edge_index) == e, "the graph has something else for %s", name(e).c_str());
    };
    for (auto e : reg.view<graph_edge>()) { auto p = graph.edge_node_entities(reg.get<graph_edge>(e).edge_index); edge_ok(e, p.first, p.second); }
    // Manifolds.
    std::set<std::pair<entt::entity, entt::entity>> pairs;
    std::set<entt::entity> listed;
    for (auto [e, m] : reg.view<contact_manifold>().each()) {
        ++num; edge_ok(e, m.body[0], m.body[1]);
        auto a = std::min(m.body[0], m.body[1]), b = std::max(m.body[0], m.body[1]);
        VP_CHECK(pairs.insert({a, b}).second, "there are two manifolds between %s and %s", name(a).c_str(), name(b).c_str());
        VP_CHECK(reg.all_of<dynamic_tag>(a) || reg.all_of<dynamic_tag>(b), "there is a manifold between %s and %s, none of which is dynamic", name(a).c_str(), name(b).c_str());
        VP_CHECK(map.contains(a, b) && map.get(a, b) == e && manifold_exists(reg, b, a), "the manifold between %s and %s is not found", name(a).c_str(), name(b).c_str());
        auto &s = reg.get<contact_manifold_state>(e);
        size_t n = 0;
        for (auto c = s.contact_entity; c != entt::null; ++n) {
            VP_CHECK((n < max_contacts) && reg.valid(c) && (reg.all_of<contact_point, contact_point_list, contact_point_geometry>(c)), "the contacts between %s and %s are not a list of points", name(a).c_str(), name(b).c_str());
            VP_CHECK(listed.insert(c).second, "a contact point is listed twice");
            auto &l = reg.get<contact_point_list>(c);
            VP_CHECK(l.parent == e, "a contact point belongs to another manifold");
            edge_ok(c, m.body[0], m.body[1]);
            auto &p = reg.get<contact_point>(c);
            VP_CHECK(finite(p.pivotA) && finite(p.pivotB) && finite(p.normal) && std::abs(length(p.normal) - 1) < 1e-2, "a contact point between %s and %s is off", name(a).c_str(), name(b).c_str());
            if (auto *con = reg.try_get<contact_constraint>(c)) VP_CHECK(con->body == m.body, "a contact constraint has other bodies than its manifold");
            c = l.next;
        }
        VP_CHECK(n == s.num_points, "a manifold counts %u points, but has %zu", unsigned(s.num_points), n);
    }
    size_t points = 0; for (auto e : reg.view<contact_point_list>()) { VP_CHECK(listed.count(e), "a contact point is in no manifold"); ++points; }
    (void)num; (void)points;
    // Islands: what is in them exists and knows it.
    for (auto [ie, isl] : reg.view<island>().each()) {
        for (auto e : isl.nodes) {
            VP_CHECK(reg.valid(e) && reg.all_of<rigidbody_tag>(e), "an island holds a body that does not exist");
            if (auto *r = reg.try_get<island_resident>(e)) VP_CHECK(r->island_entity == ie, "%s is in an island it does not know", name(e).c_str());
            else VP_CHECK(reg.get<multi_island_resident>(e).island_entities.contains(ie), "%s is in an island it does not know", name(e).c_str());
        }
        for (auto e : isl.edges) VP_CHECK(reg.valid(e) && reg.all_of<graph_edge>(e) && reg.get<island_resident>(e).island_entity == ie, "an island holds a constraint that does not exist or does not know it");
    }
}
// Right after a step every dynamic body is in an island, and all that is connected in the same.
inline void islands_complete(entt::registry &reg, const std::function<std::string(entt::entity)> &name) {
    auto &graph = reg.ctx().get<entity_graph>();
    for (auto e : reg.view<rigidbody_tag, dynamic_tag>()) {
        auto i = reg.get<island_resident>(e).island_entity;
        VP_CHECK(i != entt::null && reg.valid(i) && reg.get<island>(i).nodes.contains(e), "%s is in no island", name(e).c_str());
        VP_CHECK(reg.all_of<sleeping_tag>(e) == reg.all_of<sleeping_tag>(i), "%s sleeps without its island or the reverse", name(e).c_str());
    }
    for (auto e : reg.view<graph_edge>()) {
        auto p = graph.edge_node_entities(reg.get<graph_edge>(e).edge_index);
        for (auto b : {p.first, p.second}) if (reg.all_of<dynamic_tag>(b)) {
            auto i = reg.get<island_resident>(b).island_entity;
            VP_CHECK(reg.get<island_resident>(e).island_entity == i && reg.get<island>(i).edges.contains(e), "a constraint of %s is not in its island", name(b).c_str());
            auto o = b == p.first ? p.second : p.first;
            VP_CHECK(reg.get<island>(i).nodes.contains(o), "%s is connected to %s but not in its island", name(o).c_str(), name(b).c_str());
        }
    }
}
}
#endif
