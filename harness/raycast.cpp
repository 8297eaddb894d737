// Rays against every shape, and against worlds of several bodies, compared with exact intervals in double precision.
#include "geo.hpp"
#include "solids.hpp"
#include "edyn/collision/raycast.hpp"
#include "edyn/collision/raycast_service.hpp"
#include "edyn/collision/broadphase.hpp"
#include "edyn/context/settings.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/math/math.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include "edyn/shapes/shapes.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/util/aabb_util.hpp"
#include <entt/entity/registry.hpp>
#include <map>
#include <memory>
#include <optional>
using namespace edyn;
using namespace geo;

namespace {
struct span { double a = -1e30, b = 1e30; bool empty() const { return a > b; } void cut(double x, double y) { a = std::max(a, x); b = std::min(b, y); } };
// Part of the line p + t d with lo <= n.x <= hi.
void slab(span &s, double p, double d, double lo, double hi) {
    if (std::abs(d) < 1e-12) { if (p < lo || p > hi) s.cut(1, 0); return; }
    double x = (lo - p) / d, y = (hi - p) / d; s.cut(std::min(x, y), std::max(x, y));
}
void quadric(span &s, D3 p, D3 d, double r) { // inside a ball of radius r around the origin; components may be dropped
    double A = n2(d), B = dt(p, d), C = n2(p) - r * r;
    if (A < 1e-20) { if (C > 0) s.cut(1, 0); return; }
    double disc = B * B - A * C; if (disc < 0) { s.cut(1, 0); return; }
    disc = std::sqrt(disc); s.cut((-B - disc) / A, (-B + disc) / A);
}
D3 drop(D3 v, int ax) { v[size_t(ax)] = 0; return v; }
// The solid, enlarged by g, in local space.
struct S {
    int kind = 0, ax = 0; double a = 1, b = 1, c = 1; const solid *poly = nullptr; std::vector<D3> v;
    span cut(D3 p, D3 d, double g) const {
        span s;
        if (kind == 0) { slab(s, p.x, d.x, -a - g, a + g); slab(s, p.y, d.y, -b - g, b + g); slab(s, p.z, d.z, -c - g, c + g); }
        else if (kind == 1) quadric(s, p, d, a + g);
        else if (kind == 2) { quadric(s, drop(p, ax), drop(d, ax), a + g); slab(s, p[size_t(ax)], d[size_t(ax)], -b - g, b + g); }
        else if (kind == 3) { // union of a cylinder and two balls: convex, so the hull of the parts is the whole
            span u; u.a = 1e30; u.b = -1e30;
            auto add = [&](span x) { if (!x.empty()) { u.a = std::min(u.a, x.a); u.b = std::max(u.b, x.b); } };
            span cy; quadric(cy, drop(p, ax), drop(d, ax), a + g); slab(cy, p[size_t(ax)], d[size_t(ax)], -b, b); add(cy);
            for (double e : {-b, b}) { span x; quadric(x, p - axis_dir(ax) * e, d, a + g); add(x); }
            return u;
        } else for (auto &f : poly->f) {
            D3 n; for (size_t k = 1; k + 1 < f.size(); ++k) n = n + cr(v[f[k]] - v[f[0]], v[f[k + 1]] - v[f[0]]);
            n = unit(n); slab(s, dt(p - v[f[0]], n), dt(d, n), -1e30, g);
        }
        return s;
    }
    // Outward normal at a surface point; false when more than one face is within m.
    bool normal(D3 p, double m, D3 &n, int &feature) const {
        if (kind == 1) { n = unit(p); feature = 0; return true; }
        if (kind == 3) { double z = p[size_t(ax)]; double e = std::min(b, std::max(-b, z)); n = unit(p - axis_dir(ax) * e); feature = std::abs(z) < b ? 0 : z < 0 ? 1 : 2; return std::abs(std::abs(z) - b) > m; }
        std::vector<std::pair<D3, double>> faces; // normal, distance
        if (kind == 0) { double h[3] = {a, b, c}; for (int k = 0; k < 3; ++k) for (int s : {1, -1}) faces.push_back({axis_dir(k) * s, s * p[size_t(k)] - h[k]}); }
        else if (kind == 2) { double z = p[size_t(ax)]; D3 r = drop(p, ax); faces.push_back({axis_dir(ax), z - b}); faces.push_back({-axis_dir(ax), -z - b}); faces.push_back({nm(r) > 0 ? unit(r) : D3{}, nm(r) - a}); }
        else for (auto &f : poly->f) { D3 m2; for (size_t k = 1; k + 1 < f.size(); ++k) m2 = m2 + cr(v[f[k]] - v[f[0]], v[f[k + 1]] - v[f[0]]); m2 = unit(m2); faces.push_back({m2, dt(p - v[f[0]], m2)}); }
        int near = 0; for (size_t i = 0; i < faces.size(); ++i) if (faces[i].second > -m) { ++near; n = faces[i].first; feature = int(i); }
        return near == 1;
    }
    const char *name() const { static const char *N[] = {"box", "sphere", "cylinder", "capsule", "polyhedron"}; return N[kind]; }
};
std::shared_ptr<convex_mesh> mesh(const solid &s) {
    auto m = std::make_shared<convex_mesh>();
    for (auto x : s.v) m->vertices.push_back(V(x));
    for (auto &f : s.f) { m->faces.push_back(uint32_t(m->indices.size())); m->faces.push_back(uint32_t(f.size())); for (auto i : f) m->indices.push_back(uint32_t(i)); }
    m->initialize();
    return m;
}
struct body { S s; std::variant<box_shape, sphere_shape, cylinder_shape, capsule_shape, polyhedron_shape> shape; };
const std::vector<solid> &all_solids() { static auto s = solids(); return s; }
std::vector<body> bodies() {
    std::vector<body> r;
    for (D3 h : {D3{1, 0.5, 0.25}, D3{0.3, 0.3, 2}, D3{1, 1, 1}}) { S s; s.kind = 0; s.a = h.x; s.b = h.y; s.c = h.z; r.push_back({s, box_shape{V(h)}}); }
    for (double a : {0.25, 1.}) { S s; s.kind = 1; s.a = a; r.push_back({s, sphere_shape{scalar(a)}}); }
    for (int ax = 0; ax < 3; ++ax) for (D3 h : {D3{0.5, 1, 0}, D3{1, 0.2, 0}}) {
        S s; s.ax = ax; s.a = h.x; s.b = h.y; auto A = coordinate_axis(ax);
        s.kind = 2; r.push_back({s, cylinder_shape{scalar(h.x), scalar(h.y), A}});
        s.kind = 3; r.push_back({s, capsule_shape{scalar(h.x), scalar(h.y), A}});
    }
    for (auto &p : all_solids()) { S s; s.kind = 4; auto m = mesh(p); s.poly = &p; for (auto &x : m->vertices) s.v.push_back(x); r.push_back({s, polyhedron_shape{m}}); }
    return r;
}
constexpr double G = 1e-3; // shapes are judged enlarged and shrunk by this much
bool touches(const span &s) { return !s.empty() && s.a <= 1 && s.b >= 0; }

// One ray against one body, everything in the body's local space.
void judge(const S &s, D3 p0, D3 p1, const quaternion &q, const shape_raycast_result &r) {
    D3 d = p1 - p0; double len = nm(d), m = 1e-4;
    auto big = s.cut(p0, d, G), small = s.cut(p0, d, -G);
    bool hit = r.fraction <= scalar(1);
    VP_CHECK(hit || r.fraction == EDYN_SCALAR_MAX, "fraction %g beyond the end of the ray", double(r.fraction));
    if (touches(small)) VP_CHECK(hit, "the ray hits the %s between %g and %g but is reported to miss", s.name(), small.a, small.b);
    if (!touches(big)) VP_CHECK(!hit, "the ray misses the %s but is reported to hit at %g", s.name(), double(r.fraction));
    if (!hit) return;
    double f = r.fraction;
    VP_CHECK(f >= 0, "the ray hits the %s behind its start, at %g", s.name(), f);
    VP_CHECK(f >= std::max(0., big.a) - m && f <= big.b + m, "the hit with the %s is reported at %g, which is not within it (%g to %g)", s.name(), f, big.a, big.b);
    if (!small.empty()) VP_CHECK(f <= std::max(0., small.a) + m, "the hit with the %s is reported at %g although it begins at %g", s.name(), f, small.a);
    if (f * len > 2 * G && !small.empty() && big.a > 0) {
        D3 x = p0 + d * s.cut(p0, d, 0).a, n; int feature;
        if (s.normal(x, 0.02, n, feature)) {
            D3 got = unrot(q, r.normal);
            VP_CHECK(nm(got - n) < 0.02, "the normal at the hit with the %s is %s instead of %s", s.name(), geo::str(got).c_str(), geo::str(n).c_str());
            if (s.kind == 0) { auto *i = std::get_if<box_raycast_info>(&r.info_var); VP_CHECK(i && i->face_index == size_t(feature), "the hit face of the box is reported wrong"); }
            if (s.kind == 2) { auto *i = std::get_if<cylinder_raycast_info>(&r.info_var); VP_CHECK(i, "no cylinder info"); if (feature == 2) VP_CHECK(i->feature == cylinder_feature::side_edge, "a hit on the side is reported as another feature"); else VP_CHECK(i->feature == cylinder_feature::face && i->face_index == size_t(feature), "the hit face of the cylinder is reported wrong"); }
            if (s.kind == 3) { auto *i = std::get_if<capsule_raycast_info>(&r.info_var); VP_CHECK(i, "no capsule info"); if (feature == 0) VP_CHECK(i->feature == capsule_feature::side, "a hit on the side is reported as another feature"); else VP_CHECK(i->feature == capsule_feature::hemisphere && i->hemisphere_index == size_t(feature == 1 ? 1 : 0), "the hit hemisphere is reported wrong"); }
            if (s.kind == 4) { auto *i = std::get_if<polyhedron_raycast_info>(&r.info_var); VP_CHECK(i && i->face_index == size_t(feature), "the hit face of the polyhedron is reported wrong"); }
        }
    }
}
template<typename Sh> shape_raycast_result cast(const Sh &s, D3 pos, const quaternion &q, D3 p0, D3 p1) { return shape_raycast(s, raycast_context{V(pos), q, V(p0), V(p1)}); }
}

VP_SCENARIO(shapes) {
    auto bs = bodies();
    for (size_t bi = 0; bi < bs.size(); ++bi) for (auto &q : orientations(vp::thorough() ? 1 : 0)) for (D3 pos : {D3{0, 0, 0}, D3{3, -1, 2}})
        for (D3 p0 : lattice(vp::thorough() ? std::vector<double>{-2.3, -1.1, -0.4, 0, 0.1, 0.6, 1.9} : std::vector<double>{-2.3, -0.4, 0, 0.6, 1.9})) {
        if (!vp::begin()) continue;
        auto &b = bs[bi];
        D3 p1;
        vp::describer() = [&] { return std::string(b.s.name()) + " #" + std::to_string(bi) + " from " + geo::str(p0) + " to " + geo::str(p1) + " (local), at " + geo::str(pos) + geo::str(q); };
        for (D3 e : lattice(vp::thorough() ? std::vector<double>{-2, -0.7, -0.15, 0, 0.3, 0.6, 2.1} : std::vector<double>{-2, -0.15, 0, 0.6, 2.1})) {
            p1 = e; if (nm(p1 - p0) < 0.05) continue;
            vp::transitions();
            auto r = std::visit([&](auto &&sh) { return cast(sh, pos, q, to_world(p0, pos, q), to_world(p1, pos, q)); }, b.shape);
            vp::nontrivial(r.fraction <= 1);
            judge(b.s, p0, p1, q, r);
        }
        vp::describer() = nullptr;
    }
}

VP_SCENARIO(planes_and_meshes) {
    // Planes: crossings in either direction.
    for (auto n : directions()) for (double c : {-1., 0., 0.5}) for (D3 p0 : lattice({-2, -0.3, 1.1})) {
        if (!vp::begin()) continue;
        for (D3 p1 : lattice({-1.7, 0.2, 2.5})) {
            vp::describe("plane %s %g from %s to %s", geo::str(n).c_str(), c, geo::str(p0).c_str(), geo::str(p1).c_str());
            double a = dt(p0, n) - c, b = dt(p1, n) - c;
            if (std::abs(a) < 1e-3 || std::abs(b) < 1e-3) continue;
            vp::transitions();
            auto r = cast(plane_shape{V(n), scalar(c)}, {}, quaternion_identity, p0, p1);
            vp::nontrivial(a * b < 0);
            if (a * b > 0) VP_CHECK(r.fraction == EDYN_SCALAR_MAX, "a segment on one side of the plane is reported to hit it at %g", double(r.fraction));
            else { VP_CHECK(std::abs(r.fraction - a / (a - b)) < 1e-4, "the plane is hit at %g instead of %g", double(r.fraction), a / (a - b)); VP_CHECK(nm(D3(r.normal) - n) < 1e-4, "the normal is not that of the plane"); }
        }
    }
    // Triangle meshes made of the faces of the solids.
    for (auto &s : all_solids()) for (D3 p0 : lattice({-3.1, -0.2, 0.4, 2.7})) {
        if (!vp::begin()) continue;
        auto tm = std::make_shared<triangle_mesh>();
        std::vector<vector3> v; for (auto x : s.v) v.push_back(V(x));
        std::vector<triangle_mesh::index_type> idx; std::vector<std::array<D3, 3>> tri;
        for (auto &f : s.f) for (size_t k = 1; k + 1 < f.size(); ++k) { for (int i : {f[0], f[k], f[k + 1]}) idx.push_back(triangle_mesh::index_type(i)); tri.push_back({s.v[f[0]], s.v[f[k]], s.v[f[k + 1]]}); }
        tm->insert_vertices(v.begin(), v.end()); tm->insert_indices(idx.begin(), idx.end()); tm->initialize();
        for (D3 p1 : lattice({-2.9, 0.17, 3.3})) {
            vp::describe("mesh of a %s from %s to %s", s.name, geo::str(p0).c_str(), geo::str(p1).c_str()); vp::transitions();
            auto r = cast(mesh_shape{tm}, {}, quaternion_identity, p0, p1);
            double sure = 2, maybe = 2; int first = -1, count = 0;
            for (size_t i = 0; i < tri.size(); ++i) {
                auto &t = tri[i]; D3 n = unit(cr(t[1] - t[0], t[2] - t[0])), d = p1 - p0; double den = dt(d, n); if (std::abs(den) < 1e-6) continue;
                double u = dt(t[0] - p0, n) / den; if (u < -1e-4 || u > 1 + 1e-4) continue;
                D3 x = p0 + d * u; double in = 1e9; for (size_t k = 0; k < 3; ++k) in = std::min(in, dt(cr(n, unit(t[(k + 1) % 3] - t[k])), x - t[k]));
                if (in > 1e-3 && u > 1e-4 && u < 1 - 1e-4) { ++count; if (u < sure) { sure = u; first = int(i); } }
                if (in > -1e-3) maybe = std::min(maybe, u);
            }
            vp::nontrivial(first >= 0);
            if (sure < 2) VP_CHECK(r.fraction <= sure + 1e-4, "the mesh is hit at %g but reported at %g", sure, double(r.fraction));
            if (maybe == 2) VP_CHECK(r.fraction == EDYN_SCALAR_MAX, "the mesh is missed but reported to be hit");
            if (r.fraction <= 1) {
                VP_CHECK(r.fraction >= maybe - 1e-4, "the mesh is first hit at %g but reported at %g", maybe, double(r.fraction));
                auto *i = std::get_if<mesh_raycast_info>(&r.info_var); VP_CHECK(i && i->triangle_index < tri.size(), "no triangle is reported");
                if (first >= 0 && sure - maybe < 1e-9 && std::abs(sure - r.fraction) < 1e-5) { auto &t = tri[i->triangle_index]; D3 n = unit(cr(t[1] - t[0], t[2] - t[0])); VP_CHECK(nm(n - D3(r.normal)) < 1e-4, "the normal is not that of the triangle"); VP_CHECK(std::abs(dt(p0 + (p1 - p0) * sure - t[0], n)) < 1e-3, "the ray is reported to hit another triangle"); }
            }
        }
    }
}

// Compounds of up to three parts: the nearest part wins.
VP_SCENARIO(compounds) {
    auto bs = bodies(); auto qs = orientations(1);
    std::vector<size_t> pick = {0, 3, 5, 6, 12, 17, 21};
    const D3 at[] = {{0, 0, 0}, {1.6, 0.2, 0}, {-0.5, 1.3, 0.4}};
    for (size_t a : pick) for (size_t b : pick) for (int n = 1; n <= 3; ++n) for (size_t iq = 0; iq < qs.size(); iq += vp::thorough() ? 1 : 4) {
        if (!vp::begin()) continue;
        compound_shape k; std::vector<size_t> which = {a, b, pick[(a + b) % pick.size()]}; which.resize(size_t(n));
        for (size_t i = 0; i < which.size(); ++i) std::visit([&](auto &&sh) { k.add_shape(sh, V(at[i]), qs[(iq + 3 * i) % qs.size()]); }, bs[which[i]].shape);
        k.finish();
        D3 pos{2, 0, -1}; auto q = qs[(iq + 5) % qs.size()];
        for (D3 p0 : lattice({-2.3, 0.1, 3})) for (D3 p1 : lattice({-2, 0.4, 2.6})) {
            vp::describe("compound of %d parts %zu %zu, orientation %zu, from %s to %s", n, a, b, iq, geo::str(p0).c_str(), geo::str(p1).c_str()); vp::transitions();
            if (nm(p1 - p0) < 0.05) continue;
            auto r = cast(k, pos, q, to_world(p0, pos, q), to_world(p1, pos, q));
            double lo = 2, hi = 2; // first hit lies between
            for (size_t i = 0; i < which.size(); ++i) {
                auto qi = qs[(iq + 3 * i) % qs.size()]; D3 l0 = to_obj(p0, at[i], qi), l1 = to_obj(p1, at[i], qi);
                auto big = bs[which[i]].s.cut(l0, l1 - l0, G), small = bs[which[i]].s.cut(l0, l1 - l0, -G);
                if (touches(big)) lo = std::min(lo, std::max(0., big.a));
                if (touches(small)) hi = std::min(hi, std::max(0., small.a));
            }
            vp::nontrivial(hi < 2);
            if (hi < 2) VP_CHECK(r.fraction <= hi + 1e-4, "a part is hit at %g but %g is reported", hi, double(r.fraction));
            if (lo == 2) VP_CHECK(r.fraction == EDYN_SCALAR_MAX, "no part is hit but %g is reported, part %zu", double(r.fraction), std::get<compound_raycast_info>(r.info_var).child_index);
            if (r.fraction <= 1) {
                VP_CHECK(r.fraction >= lo - 1e-4, "parts are hit from %g on but %g is reported", lo, double(r.fraction));
                auto *i = std::get_if<compound_raycast_info>(&r.info_var); VP_CHECK(i && i->child_index < which.size(), "the hit part is not reported");
                // The reported part yields this very result.
                auto ci = i->child_index; auto qi = qs[(iq + 3 * ci) % qs.size()]; D3 l0 = to_obj(p0, at[ci], qi), l1 = to_obj(p1, at[ci], qi);
                shape_raycast_result c; c.fraction = r.fraction; D3 nn = unrot(qi, unrot(q, r.normal)); c.normal = V(nn);
                std::visit([&](auto &&x) { using T = std::decay_t<decltype(x)>; if constexpr (!std::is_same_v<T, std::monostate>) c.info_var = x; }, i->child_info_var);
                judge(bs[which[ci]].s, l0, l1, quaternion_identity, c);
            }
        }
    }
}

namespace {
unsigned g_chunk = 1;
void run_tasks(task_delegate_t task, unsigned size) { for (unsigned i = 0; i < size; i += g_chunk) task(i, std::min(size, i + g_chunk)); }
struct placed { size_t kind; D3 pos; quaternion q; bool origin; bool procedural; };
}

// Worlds of up to five bodies: nearest hit of those not ignored, from the synchronous query and the service.
VP_SCENARIO(worlds) {
    auto bs = bodies(); auto qs = orientations(1);
    const placed P[] = {{0, {0, 0, 0}, qs[4], false, true}, {3, {2.2, 0.3, 0}, qs[0], false, false}, {5, {-1.8, 0.5, 0.2}, qs[5], false, true}, {6, {0.2, 2, 0.1}, qs[7], true, true}, {19, {0.3, -2.4, 0.3}, qs[9], true, false}};
    std::vector<std::pair<D3, D3>> rays;
    for (D3 p : {D3{-4, 0.3, 0}, D3{4, 0.2, 0.1}, D3{0.1, 5, 0}, D3{0, -5, 0.2}, D3{-3, -3, 0}, D3{0.05, 0.05, 0}, D3{9, 9, 9}}) for (D3 d : {D3{1, 0, 0}, D3{-1, 0, 0}, D3{0, 1, 0}, D3{0, -1, 0}, D3{1, 1, 0}, D3{-0.9, 0.1, 0.05}}) for (double len : {1.5, 10.}) rays.push_back({p, p + d * len});
    for (unsigned mask = 0; mask < 32; ++mask) for (unsigned ignore = 0; ignore < 32; ++ignore) {
        if (ignore & ~mask) continue;
        if (!vp::begin()) continue;
        vp::describe("bodies %x ignoring %x", mask, ignore);
        entt::registry reg;
        auto &set = reg.ctx().emplace<settings>(); set.enqueue_task_wait = &run_tasks;
        auto &bp = reg.ctx().emplace<broadphase>(reg);
        std::map<entt::entity, size_t> of; std::vector<entt::entity> ign; std::vector<entt::entity> es;
        for (size_t i = 0; i < 5; ++i) if (mask >> i & 1) {
            auto e = reg.create(); of[e] = i; es.push_back(e);
            // A body with an origin has its center of mass elsewhere.
            reg.emplace<position>(e, P[i].origin ? V(P[i].pos + D3{0.3, 0.4, -0.2}) : V(P[i].pos));
            if (P[i].origin) reg.emplace<origin>(e, V(P[i].pos));
            reg.emplace<orientation>(e, P[i].q);
            if (P[i].procedural) reg.emplace<procedural_tag>(e);
            std::visit([&](auto &&sh) { using T = std::decay_t<decltype(sh)>; reg.emplace<T>(e, sh); reg.emplace<shape_index>(e, get_shape_index<T>()); reg.emplace<AABB>(e, shape_aabb(sh, V(P[i].pos), P[i].q)); }, bs[P[i].kind].shape);
            if (ignore >> i & 1) ign.push_back(e);
        }
        bp.init_new_aabb_entities();
        auto judge_world = [&](const raycast_result &r, D3 p0, D3 p1) {
            vp::transitions();
            double lo = 2, hi = 2;
            for (auto [e, i] : of) {
                if (ignore >> i & 1) { VP_CHECK(r.entity != e, "an ignored body is reported"); continue; }
                D3 l0 = to_obj(p0, P[i].pos, P[i].q), l1 = to_obj(p1, P[i].pos, P[i].q);
                auto big = bs[P[i].kind].s.cut(l0, l1 - l0, G), small = bs[P[i].kind].s.cut(l0, l1 - l0, -G);
                if (touches(big)) lo = std::min(lo, std::max(0., big.a));
                if (touches(small)) hi = std::min(hi, std::max(0., small.a));
            }
            vp::nontrivial(hi < 2);
            if (hi < 2) VP_CHECK(r.fraction <= hi + 1e-4 && r.entity != entt::entity{entt::null}, "a body is hit at %g but %g is reported", hi, double(r.fraction));
            if (lo == 2) VP_CHECK(r.entity == entt::entity{entt::null} && r.fraction > 1, "no body is hit but %g is reported", double(r.fraction));
            if (r.entity != entt::entity{entt::null}) { VP_CHECK(of.count(r.entity), "an unknown body is reported"); auto i = of[r.entity]; VP_CHECK(r.fraction >= lo - 1e-4, "bodies are hit from %g on but %g is reported", lo, double(r.fraction)); judge(bs[P[i].kind].s, to_obj(p0, P[i].pos, P[i].q), to_obj(p1, P[i].pos, P[i].q), P[i].q, r); }
        };
        for (auto &r : rays) judge_world(raycast(reg, V(r.first), V(r.second), ign), r.first, r.second);
        // The service: every ray added is answered exactly once, whatever it hits and however the work is split.
        for (bool mt : {false, true}) for (unsigned chunk : {1u, 3u, 1000u}) for (size_t batch : {size_t(1), size_t(5), rays.size()}) {
            if (!mt && chunk != 1) continue;
            g_chunk = chunk;
            raycast_service svc(reg);
            std::map<unsigned, int> answers;
            for (size_t i = 0; i < rays.size(); i += batch) {
                size_t end = std::min(rays.size(), i + batch);
                for (size_t k = i; k < end; ++k) svc.add_ray(V(rays[k].first), V(rays[k].second), unsigned(k), ign);
                svc.update(mt);
                svc.consume_results([&](unsigned id, const raycast_result &r) { VP_CHECK(id >= i && id < end, "an answer to a ray of another update"); ++answers[id]; judge_world(r, rays[id].first, rays[id].second); });
                svc.consume_results([&](unsigned, const raycast_result &) { VP_CHECK(false, "an answer is given twice"); });
            }
            for (size_t k = 0; k < rays.size(); ++k) VP_CHECK(answers[unsigned(k)] == 1, "ray %zu of the service is answered %d times", k, answers[unsigned(k)]);
        }
    }
}
