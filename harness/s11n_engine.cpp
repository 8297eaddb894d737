// Round trip of constraints, entity-bearing components, convex shapes and network packets.
#include "s11n.hpp"
#include "edyn/serialization/entt_s11n.hpp"
#include "edyn/comp/child_list.hpp"
#include "edyn/comp/collision_exclusion.hpp"
#include "edyn/comp/transient.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/collision/contact_point.hpp"
#include "edyn/constraints/constraint.hpp"
#include "edyn/constraints/null_constraint.hpp"
#include "edyn/networking/comp/networked_comp.hpp"
#include "edyn/networking/comp/entity_owner.hpp"
#include "edyn/networking/comp/asset_ref.hpp"
#include "edyn/networking/packet/edyn_packet.hpp"
#include "edyn/shapes/shapes.hpp"
#include "edyn/util/shape_util.hpp"
#include <map>
#include <set>

namespace s11n {
#define F(x) fields(v, c.x)
template<class V> void fields(V &v, std::string &s) { v.size(s.size()); for (auto &c : s) v.leaf(c); }
template<class V, class A, class B> void fields(V &v, std::pair<A, B> &p) { fields(v, p.first); fields(v, p.second); }
template<class V, class K, class E> void fields(V &v, std::map<K, E> &m) { v.size(m.size()); for (auto &p : m) { if constexpr(std::is_same_v<V, dumper>) { auto k = p.first; fields(v, k); } fields(v, p.second); } }
template<class V> void fields(V &v, parent_comp &c) { F(child); }
template<class V> void fields(V &v, child_list &c) { F(parent); F(next); }
template<class V> void fields(V &v, transient &c) { F(ids); }
template<class V> void fields(V &v, entity_owner &c) { F(client_entity); }
template<class V> void fields(V &v, asset_ref &c) { F(id); F(entity_map); }
template<class V> void fields(V &v, contact_manifold &c) { F(body); }
template<class V> void fields(V &v, contact_manifold_state &c) { F(num_points); F(contact_entity); }
template<class V> void fields(V &v, contact_point &c) { F(pivotA); F(pivotB); F(normal); F(lifetime); }
template<class V> void fields(V &v, contact_point_list &c) { F(parent); F(next); }
template<class V> void fields(V &v, contact_point_material &c) { F(friction); F(spin_friction); F(roll_friction); F(restitution); F(stiffness); F(damping); }
template<class V> void fields(V &v, contact_point_impulse &c) { F(normal_impulse); F(friction_impulse); F(normal_restitution_impulse); F(friction_restitution_impulse); }
template<class V> void fields(V &v, contact_point_spin_friction_impulse &c) { F(spin_friction_impulse); }
template<class V> void fields(V &v, contact_point_roll_friction_impulse &c) { F(rolling_friction_impulse); }
template<class V> void fields(V &v, null_constraint &c) { F(body); }
template<class V> void fields(V &v, gravity_constraint &c) { F(body); F(applied_impulse); }
template<class V> void fields(V &v, contact_constraint &c) { F(body); }
template<class V> void fields(V &v, contact_extras_constraint &c) { F(body); }
template<class V> void fields(V &v, distance_constraint &c) { F(body); F(pivot); F(distance); F(applied_impulse); }
template<class V> void fields(V &v, soft_distance_constraint &c) { F(body); F(pivot); F(distance); F(stiffness); F(damping); F(applied_spring_impulse); F(applied_damping_impulse); }
template<class V> void fields(V &v, point_constraint &c) { F(body); F(pivot); F(friction_torque); F(applied_impulse); F(applied_friction_impulse); }
template<class V> void fields(V &v, cone_constraint &c) { F(body); F(pivot); F(frame); F(span_tan); F(restitution); F(bump_stop_stiffness); F(bump_stop_length); F(limit_impulse); F(bump_stop_impulse); }
template<class V> void fields(V &v, hinge_constraint &c) {
    F(body); F(pivot); F(frame); F(angle_min); F(angle_max); F(limit_restitution); F(bump_stop_angle); F(bump_stop_stiffness); F(torque); F(speed);
    F(rest_angle); F(stiffness); F(damping); F(angle);
    F(applied_impulse.linear); F(applied_impulse.hinge); F(applied_impulse.limit); F(applied_impulse.bump_stop); F(applied_impulse.spring); F(applied_impulse.torque);
}
template<class V> void fields(V &v, cvjoint_constraint &c) {
    F(body); F(pivot); F(frame); F(twist_min); F(twist_max); F(twist_restitution); F(twist_angle); F(twist_bump_stop_angle); F(twist_bump_stop_stiffness);
    F(twist_friction_torque); F(twist_rest_angle); F(twist_stiffness); F(twist_damping); F(rest_direction); F(bend_stiffness); F(bend_friction_torque); F(bend_damping);
    F(applied_impulse.linear); F(applied_impulse.twist_limit); F(applied_impulse.twist_bump_stop); F(applied_impulse.twist_spring); F(applied_impulse.twist_friction_damping); F(applied_impulse.bend_friction_damping); F(applied_impulse.bend_spring);
}
// The impulses of the degrees of freedom of a generic constraint are solver state which is not transferred.
template<class V> void fields(V &v, generic_constraint::linear_dof &c) { F(limit_enabled); F(offset_min); F(offset_max); F(limit_restitution); F(bump_stop_length); F(bump_stop_stiffness); F(friction_force); F(rest_offset); F(spring_stiffness); F(damping); }
template<class V> void fields(V &v, generic_constraint::angular_dof &c) { F(limit_enabled); F(angle_min); F(angle_max); F(limit_restitution); F(bump_stop_angle); F(bump_stop_stiffness); F(friction_torque); F(rest_angle); F(spring_stiffness); F(damping); F(current_angle); }
template<class V> void fields(V &v, generic_constraint &c) { F(body); F(pivot); F(frame); F(linear_dofs); F(angular_dofs); }
template<class V> void fields(V &v, collision_filter &c) { F(group); F(mask); }

template<class V> void fields(V &v, packet::asset_sync &c) { F(id); F(entity); }
template<class V> void fields(V &v, packet::client_created &c) { F(client_entity); }
template<class V> void fields(V &v, packet::destroy_entity &c) { F(timestamp); F(entities); }
template<class V> void fields(V &v, packet::entity_exited &c) { F(entities); }
template<class V> void fields(V &v, packet::query_entity &c) { F(id); F(entities); }
template<class V> void fields(V &v, packet::server_settings &c) { F(fixed_dt); F(gravity); F(num_solver_velocity_iterations); F(num_solver_position_iterations); F(num_restitution_iterations); F(num_individual_restitution_iterations); F(allow_full_ownership); }
template<class V> void fields(V &v, packet::update_entity_map &c) { F(timestamp); F(pairs); }
template<class V> void fields(V &v, packet::time_request &c) { F(id); }
template<class V> void fields(V &v, packet::time_response &c) { F(id); F(timestamp); }
template<class V> void fields(V &v, packet::set_playout_delay &c) { F(value); }
template<class V> void fields(V &v, packet::set_aabb_of_interest &c) { F(min); F(max); }
// Pools of components used in the tests below.
template<class V> void fields(V &v, position &c) { fields(v, static_cast<vector3 &>(c)); }
template<class V> void fields(V &v, orientation &c) { fields(v, static_cast<quaternion &>(c)); }
template<class C> constexpr component_index_type index_of_comp() { return tuple_type_index_of<component_index_type, C, networked_components_t>::value; }
template<class C, class V> bool pool_fields(V &v, pool_snapshot_data &d) {
    auto *p = dynamic_cast<pool_snapshot_data_impl<C> *>(&d); if (!p) return false;
    v.size(1000 + index_of_comp<C>()); // which component type it is
    if constexpr(!std::is_empty_v<C>) { v.size(p->components.size()); for (auto &c : p->components) fields(v, c); }
    return true;
}
template<class V> void fields(V &v, pool_snapshot &c) {
    F(component_index); if (!c.ptr) { v.size(9999); return; }
    v.size(c.ptr->entity_indices.size()); for (auto &i : c.ptr->entity_indices) fields(v, i);
    bool known = pool_fields<position>(v, *c.ptr) || pool_fields<orientation>(v, *c.ptr) || pool_fields<hinge_constraint>(v, *c.ptr) || pool_fields<dynamic_tag>(v, *c.ptr) || pool_fields<transient>(v, *c.ptr) || pool_fields<collision_filter>(v, *c.ptr);
    if (!known) v.size(8888);
}
template<class V> void fields(V &v, packet::registry_snapshot &c) { F(timestamp); F(entities); F(pools); }
template<class V> void fields(V &v, packet::create_entity &c) { F(timestamp); F(entities); F(pools); }
template<class V> void fields(V &v, packet::entity_response &c) { F(id); F(entities); F(pools); }
template<class V> void fields(V &v, packet::asset_sync_response &c) { F(id); F(entity); F(entities); F(pools); }
template<class V> void fields(V &v, packet::entity_entered::asset_info &c) { F(entity); F(asset); F(owner); F(entities); F(pools); }
template<class V> void fields(V &v, packet::entity_entered &c) { F(entry); }
template<class V> void fields(V &v, packet::edyn_packet &c) { v.size(c.var.index()); std::visit([&](auto &p) { fields(v, p); }, c.var); }
#undef F

// Distinct values in everything but the type indices of the pools, which select a type.
struct pool_filler : filler {};

template<class C> pool_snapshot make_pool(unsigned n, unsigned k) {
    pool_snapshot p; p.component_index = index_of_comp<C>();
    auto d = std::make_shared<pool_snapshot_data_impl<C>>();
    for (unsigned i = 0; i < n; ++i) d->entity_indices.push_back(uint8_t((i * 3 + k) % 7));
    if constexpr(!std::is_empty_v<C>) { d->components.resize(n); filler f; f.k = k; for (auto &c : d->components) fields(f, c); }
    p.ptr = d; return p;
}
inline std::vector<pool_snapshot> make_pools(unsigned code) {
    std::vector<pool_snapshot> v;
    for (unsigned i = 0; code; code /= 7, ++i) switch (code % 7) {
        case 1: v.push_back(make_pool<position>(i + 2, i)); break;
        case 2: v.push_back(make_pool<hinge_constraint>(1, i)); break;
        case 3: v.push_back(make_pool<dynamic_tag>(i + 1, i)); break;
        case 4: { auto p = make_pool<transient>(3, i); auto *d = static_cast<pool_snapshot_data_impl<transient> *>(p.ptr.get()); d->components[1].ids = {1, 2, 3}; d->components[2].ids = {i}; v.push_back(p); break; }
        case 5: v.push_back(make_pool<orientation>(0, i)); break;
        case 6: v.push_back(make_pool<collision_filter>(4, i)); break;
    }
    return v;
}
inline std::vector<entt::entity> ents(unsigned n) { std::vector<entt::entity> v; for (unsigned i = 0; i < n; ++i) v.push_back(entt::entity(i * 1048577u + 3)); return v; }

inline packet::edyn_packet make_packet(int kind, unsigned code, unsigned n) {
    double ts = 1.5 * code + n; auto es = ents(n); auto ps = make_pools(code);
    auto snap = [&](auto p) { p.timestamp = ts; p.entities = es; p.pools = ps; return p; };
    switch (kind) {
    case 0: return {snap(packet::registry_snapshot{})};
    case 1: return {snap(packet::create_entity{})};
    case 2: return {packet::destroy_entity{ts, es}};
    case 3: { packet::update_entity_map m{ts, {}}; for (auto e : es) m.pairs.emplace_back(e, entt::entity(unsigned(e) + code)); return {m}; }
    case 4: return {packet::client_created{entt::entity{code}}};
    case 5: return {packet::set_playout_delay{ts}};
    case 6: return {packet::time_request{code}};
    case 7: return {packet::time_response{code, ts}};
    case 8: { packet::server_settings s; filler f; f.k = code; fields(f, s); return {s}; }
    case 9: return {packet::set_aabb_of_interest{{1, 2, scalar(code)}, {4, 5, scalar(n)}}};
    case 10: { packet::query_entity q; q.id = code * 77 + 1; for (auto e : es) q.entities.push_back({e, std::vector<component_index_type>(code % 5, uint16_t(n))}); return {q}; }
    case 11: { auto p = snap(packet::entity_response{}); p.id = code + 9; return {p}; }
    case 12: { packet::entity_entered p; for (unsigned i = 0; i < n; ++i) { packet::entity_entered::asset_info a{}; a.entity = entt::entity{i}; a.owner = entt::entity{code}; a.asset.id = std::string(i, 'q'); for (unsigned j = 0; j < i; ++j) a.asset.entity_map[j * 5] = entt::entity{j}; a.entities = es; a.pools = ps; p.entry.push_back(a); } return {p}; }
    case 13: return {packet::entity_exited{es}};
    case 14: return {packet::asset_sync{code, entt::entity{n}}};
    default: { auto p = snap(packet::asset_sync_response{}); p.id = code; p.entity = entt::entity{n + 1}; return {p}; }
    }
}
}
using namespace s11n;

VP_SCENARIO(engine_components) {
#define ENUM(T) enumerate<T>(#T)
    ENUM(parent_comp); ENUM(child_list); ENUM(entity_owner); ENUM(contact_manifold); ENUM(contact_manifold_state);
    ENUM(contact_point); ENUM(contact_point_list); ENUM(contact_point_material); ENUM(contact_point_impulse);
    ENUM(contact_point_spin_friction_impulse); ENUM(contact_point_roll_friction_impulse);
    for (unsigned n : {0u, 1u, 5u}) { transient t; t.ids.resize(n); enumerate<transient>("transient", t); }
    for (unsigned n : {0u, 1u, 3u}) { asset_ref r; r.id = std::string(n * 2, 'a'); for (unsigned i = 0; i < n; ++i) r.entity_map[i * 1000003u] = entt::null; enumerate<asset_ref>("asset_ref", r); }
}
VP_SCENARIO(engine_constraints) {
    ENUM(null_constraint); ENUM(gravity_constraint); ENUM(contact_constraint); ENUM(contact_extras_constraint); ENUM(distance_constraint);
    ENUM(soft_distance_constraint); ENUM(point_constraint); ENUM(cone_constraint); ENUM(hinge_constraint); ENUM(cvjoint_constraint);
    enumerate<generic_constraint::linear_dof>("linear dof"); enumerate<generic_constraint::angular_dof>("angular dof"); ENUM(generic_constraint);
}
// Every number of exclusions over every previous number of exclusions.
VP_SCENARIO(engine_collision_exclusion) {
    for (unsigned a = 0; a <= 16; ++a) for (unsigned b = 0; b <= 16; ++b) {
        if (!vp::begin()) continue;
        vp::describe("%u exclusions read over %u exclusions", a, b);
        collision_exclusion x, y; for (unsigned i = 0; i < a; ++i) x.entity[i] = entt::entity(i + 1); for (unsigned i = 0; i < b; ++i) y.entity[i] = entt::entity(100 + i);
        std::vector<uint8_t> buf; memory_output_archive o(buf); o(x); memory_input_archive in(buf.data(), buf.size()); in(y);
        VP_CHECK(!in.failed() && in.eof() && y.entity == x.entity && y.num_entities() == a, "collision exclusions are not read back as written");
        vp::states(); vp::nontrivial(); vp::transitions(2);
    }
    for (unsigned count = 0; count < 256; ++count) for (unsigned len = 0; len <= 80; len += 4) {
        if (!vp::begin()) continue;
        vp::describe("collision exclusions announcing %u entries with %u bytes", count, len);
        std::vector<uint8_t> m{uint8_t(count)}; for (unsigned i = 0; i < len; ++i) m.push_back(uint8_t(i + 1));
        block b(m.data(), m.size(), 1); memory_input_archive in(b.data(), b.n); collision_exclusion x; in(x);
        if (std::min(count, 16u) * 4 > len) VP_CHECK(in.failed(), "truncated collision exclusions are not reported");
        vp::states(); vp::nontrivial();
    }
}
VP_SCENARIO(engine_packets) {
    unsigned codes[] = {0, 1, 2, 3, 4, 5, 6, 8, 16, 45, 120, 230, 2 + 7 * 4 + 49 * 6};
    for (int kind = 0; kind < 16; ++kind) for (unsigned code : codes) for (unsigned n : {0u, 1u, 3u, 8u}) {
        if (!vp::begin()) continue;
        vp::describe("packet kind %d, pools %u, %u entities", kind, code, n);
        auto p = make_packet(kind, code, n), stale = make_packet((kind + int(n) + 5) % 16, 16, 3);
        VP_CHECK(int(p.var.index()) == kind, "harness: packet kind");
        roundtrip("packet", p, stale, options{n == 1 && code < 4, code < 9 && n < 4}); vp::states(); vp::nontrivial();
        bool reliable = !(kind == 0 || kind == 6 || kind == 7);
        VP_CHECK(should_send_reliably(p) == reliable, "packet kind %d is classified as %s", kind, reliable ? "unreliable" : "reliable");
    }
}
// Damaged packets: every prefix and every value of every byte of the header and of small packets.
VP_SCENARIO(engine_packet_damage) {
    for (int kind = 0; kind < 16; ++kind) for (unsigned code : {0u, 1u, 3u, 4u, 3u + 7 * 6}) {
        auto p = make_packet(kind, code, 2); std::vector<uint8_t> bytes; memory_output_archive o(bytes); o(p);
        static const int vals[] = {0, 1, 2, 3, 7, 15, 16, 44, 45, 46, 127, 128, 255};
        for (size_t i = 0; i < bytes.size(); ++i) for (int x : vals) {
            if (!vp::begin()) continue;
            vp::describe("packet kind %d, pools %u, byte %zu of %zu set to %d", kind, code, i, bytes.size(), x);
            auto m = bytes; m[i] = uint8_t(x);
            packet::edyn_packet q; block b(m.data(), m.size(), 1); memory_input_archive in(b.data(), b.n); in(q);
            if (x == bytes[i]) VP_CHECK(!in.failed() && dump(q) == dump(p), "an undamaged packet is not read back");
            // Whatever was accepted can be inspected by the receiver.
            auto inspect = [](std::vector<pool_snapshot> &pools) { for (auto &pool : pools) { VP_CHECK(bool(pool.ptr), "a received pool of components has no data"); pool.ptr->get_type_id(); } };
            std::visit([&](auto &r) {
                using R = std::decay_t<decltype(r)>;
                if constexpr(std::is_base_of_v<packet::registry_snapshot, R>) inspect(r.pools);
                else if constexpr(std::is_same_v<R, packet::entity_entered>) for (auto &e : r.entry) inspect(e.pools);
            }, q.var);
            vp::states(); vp::nontrivial();
        }
    }
    // every component index, known or not
    for (unsigned idx = 0; idx < 65536; ++idx) {
        if (!vp::begin()) continue;
        vp::describe("snapshot with a pool of component index %u", idx);
        auto p = make_packet(0, 3, 1); std::vector<uint8_t> bytes; memory_output_archive o(bytes); o(p);
        size_t at = 1 + 8 + 2 + 4 + 2; bytes[at] = uint8_t(idx); bytes[at + 1] = uint8_t(idx >> 8);
        // keep the payload empty so that it fits any component type
        bytes.resize(at + 2); bytes.push_back(1); bytes.push_back(0); bytes.push_back(0);
        packet::edyn_packet q; memory_input_archive in(bytes.data(), bytes.size()); in(q);
        auto &snap = std::get<packet::registry_snapshot>(q.var);
        VP_CHECK(!in.failed() && in.eof(), "a snapshot with one empty pool is not read completely");
        constexpr auto known = std::tuple_size_v<networked_components_t>;
        VP_CHECK(snap.pools.size() == (idx < known ? 1u : 0u), "a pool with component index %u is %s", idx, idx < known ? "lost" : "kept although the type is unknown");
        if (!snap.pools.empty()) VP_CHECK(snap.pools[0].ptr && snap.pools[0].component_index == idx && snap.pools[0].ptr->empty(), "an empty pool is not read back as such");
        vp::states(); vp::nontrivial();
    }
}
// Every networked component type has its own pool type, selected by its index on both ends.
VP_SCENARIO(engine_pool_types) {
    std::set<entt::id_type> seen;
    { auto comps = networked_components; for (unsigned i = 0; i < std::tuple_size_v<networked_components_t>; ++i) visit_tuple(comps, i, [&](auto &&c) { seen.insert(entt::type_id<std::decay_t<decltype(c)>>().hash()); }); }
    for (unsigned i = 0; i < std::tuple_size_v<networked_components_t>; ++i) {
        if (!vp::begin()) continue;
        vp::describe("pool type of component index %u", i);
        auto d = (*g_make_pool_snapshot_data)(component_index_type(i));
        entt::id_type want{}; auto comps = networked_components;
        visit_tuple(comps, i, [&](auto &&c) { want = entt::type_id<std::decay_t<decltype(c)>>().hash(); });
        VP_CHECK(d && d->get_type_id() == want, "component index %u makes a pool of another type", i);
        VP_CHECK(seen.size() == std::tuple_size_v<networked_components_t>, "component types share an identifier");
        vp::states(); vp::nontrivial();
    }
}
// Convex shapes: geometry is preserved (its centroid is moved to the origin again, so up to
// rounding) and the derived data is rebuilt.
static bool near(const vector3 &a, const vector3 &b) { return length(a - b) < scalar(1e-5); }
VP_SCENARIO(engine_convex) {
    for (int kind = 0; kind < 6; ++kind) for (int stale = 0; stale < 2; ++stale) {
        if (!vp::begin()) continue;
        vp::describe("convex shape %d read into %s shape", kind, stale ? "a used" : "a fresh");
        auto mk = [](int kind) {
            auto m = std::make_shared<convex_mesh>();
            if (kind < 3) make_box_mesh(vector3{scalar(0.5 + kind), scalar(0.75), 1}, m->vertices, m->indices, m->faces);
            else { // prisms over regular polygons
                int n = kind; for (int s = 0; s < 2; ++s) for (int i = 0; i < n; ++i) m->vertices.push_back({scalar(std::cos(6.283185 * i / n)), s ? scalar(1) : scalar(-1), scalar(std::sin(6.283185 * i / n))});
                m->faces.push_back(0); m->faces.push_back(n); for (int i = 0; i < n; ++i) m->indices.push_back(i);
                m->faces.push_back(n); m->faces.push_back(n); for (int i = n; i--;) m->indices.push_back(n + i);
                for (int i = 0; i < n; ++i) { int j = (i + 1) % n; m->faces.push_back(m->indices.size()); m->faces.push_back(4); for (int k : {i, n + i, n + j, j}) m->indices.push_back(k); }
            }
            m->initialize(); return polyhedron_shape{m};
        };
        auto same = [](const convex_mesh &a, const convex_mesh &b) {
            VP_CHECK(a.vertices.size() == b.vertices.size() && a.indices == b.indices && a.faces == b.faces, "a convex mesh read back has other faces");
            for (size_t i = 0; i < a.vertices.size(); ++i) VP_CHECK(near(a.vertices[i], b.vertices[i]), "a vertex of a convex mesh read back moved");
            VP_CHECK(a.edges == b.edges && a.edge_faces == b.edge_faces && a.relevant_faces == b.relevant_faces && a.relevant_edges == b.relevant_edges && a.neighbors_start == b.neighbors_start && a.neighbor_indices == b.neighbor_indices, "the adjacency of a convex mesh read back differs");
            VP_CHECK(a.normals.size() == b.normals.size() && a.relevant_normals.size() == b.relevant_normals.size() && a.edge_normals.size() == b.edge_normals.size(), "the normals of a convex mesh read back differ");
            for (size_t i = 0; i < a.normals.size(); ++i) VP_CHECK(near(a.normals[i], b.normals[i]), "a normal of a convex mesh read back differs");
        };
        auto s = mk(kind); std::vector<uint8_t> b; memory_output_archive o(b); o(s);
        polyhedron_shape t; if (stale) t = mk((kind + 1) % 6); auto *old = t.mesh.get();
        memory_input_archive in(b.data(), b.size()); in(t);
        VP_CHECK(!in.failed() && in.eof() && t.mesh && t.mesh != s.mesh, "a polyhedron is not read back"); same(*s.mesh, *t.mesh);
        (void)old;
        // a mesh object that already holds another mesh
        convex_mesh cm = *mk((kind + 2) % 6).mesh; std::vector<uint8_t> b2; memory_output_archive o2(b2); o2(*s.mesh); memory_input_archive in2(b2.data(), b2.size()); in2(cm);
        VP_CHECK(!in2.failed() && in2.eof(), "a convex mesh is not read back"); same(*s.mesh, cm);
        vp::states(); vp::nontrivial(); vp::transitions(4);
        // compound of three shapes
        for (int c = 0; c < 27; ++c) {
            compound_shape comp; int cc = c;
            for (int i = 0; i < 3; ++i, cc /= 3) {
                vector3 pos{scalar(3 * i), scalar(i * i), scalar(-i)}; auto orn = i == 1 ? quaternion{scalar(0.5), scalar(0.5), scalar(0.5), scalar(0.5)} : quaternion_identity;
                if (cc % 3 == 0) comp.add_shape(s, pos, orn); else if (cc % 3 == 1) comp.add_shape(capsule_shape{scalar(0.25), scalar(0.5), coordinate_axis::z}, pos, orn); else comp.add_shape(box_shape{{1, 2, scalar(0.5)}}, pos, orn);
            }
            comp.finish();
            compound_shape got; if (stale) { got.add_shape(sphere_shape{1}, {9, 9, 9}, quaternion_identity); got.finish(); }
            std::vector<uint8_t> cb; memory_output_archive co(cb); co(comp); memory_input_archive ci(cb.data(), cb.size()); ci(got);
            VP_CHECK(!ci.failed() && ci.eof() && got.nodes.size() == comp.nodes.size(), "a compound shape is not read back");
            for (size_t i = 0; i < comp.nodes.size(); ++i) {
                auto &x = comp.nodes[i], &y = got.nodes[i];
                VP_CHECK(x.shape_var.index() == y.shape_var.index() && x.position == y.position && dump(x.orientation) == dump(y.orientation), "a part of a compound shape read back differs");
                VP_CHECK(near(x.aabb.min, y.aabb.min) && near(x.aabb.max, y.aabb.max), "the bounds of a part of a compound shape read back differ");
                if (auto *p = std::get_if<polyhedron_shape>(&x.shape_var)) same(*p->mesh, *std::get<polyhedron_shape>(y.shape_var).mesh);
                if (auto *p = std::get_if<box_shape>(&x.shape_var)) VP_CHECK(p->half_extents == std::get<box_shape>(y.shape_var).half_extents, "a box in a compound shape read back differs");
                if (auto *p = std::get_if<capsule_shape>(&x.shape_var)) { auto &q = std::get<capsule_shape>(y.shape_var); VP_CHECK(p->radius == q.radius && p->half_length == q.half_length && p->axis == q.axis, "a capsule in a compound shape read back differs"); }
                // and it is found through the tree
                bool found = false; got.visit(y.aabb, [&](auto &&, auto id) { found |= id == i; });
                VP_CHECK(found, "a part of a compound shape read back is not found in its own bounds");
            }
            vp::states(); vp::transitions(2);
        }
    }
}
