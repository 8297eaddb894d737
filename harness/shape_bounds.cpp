// Bounding boxes of all shapes in all poses against double precision support values; visits of compounds.
#include "geo.hpp"
#include "solids.hpp"
#include "edyn/util/aabb_util.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include "edyn/shapes/shapes.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include <algorithm>
#include <memory>
#include <set>
using namespace edyn;
using namespace geo;

namespace {
struct DB { D3 lo, hi; };
// Half width of each shape along a world axis.
double w_box(D3 h, const quaternion &q, D3 d) { D3 l = unrot(q, d); return std::abs(l.x) * h.x + std::abs(l.y) * h.y + std::abs(l.z) * h.z; }
double w_cyl(double r, double h, int ax, const quaternion &q, D3 d) { double c = dt(rot(q, axis_dir(ax)), d); return std::abs(c) * h + r * std::sqrt(std::max(0., 1 - c * c)); }
double w_cap(double r, double h, int ax, const quaternion &q, D3 d) { double c = dt(rot(q, axis_dir(ax)), d); return std::abs(c) * h + r; }
template<typename F> DB sym(D3 pos, F w) { DB b; for (size_t k = 0; k < 3; ++k) { D3 d = axis_dir(int(k)); double x = w(d); b.lo[k] = pos[k] - x; b.hi[k] = pos[k] + x; } return b; }
DB cloud(const std::vector<D3> &v) { DB b{v[0], v[0]}; for (auto &p : v) for (size_t k = 0; k < 3; ++k) { b.lo[k] = std::min(b.lo[k], p[k]); b.hi[k] = std::max(b.hi[k], p[k]); } return b; }
void equal(const AABB &a, const DB &b, double ext, const char *what) {
    for (size_t k = 0; k < 3; ++k)
        VP_CHECK(std::abs(double(a.min[k]) - b.lo[k]) < 1e-5 * (1 + ext) && std::abs(double(a.max[k]) - b.hi[k]) < 1e-5 * (1 + ext), "bounding box of a %s spans [%g, %g] along axis %zu instead of [%g, %g]", what, double(a.min[k]), double(a.max[k]), k, b.lo[k], b.hi[k]);
}
double size_of(D3 p) { return std::abs(p.x) + std::abs(p.y) + std::abs(p.z); }
std::shared_ptr<convex_mesh> mesh(const solid &s) {
    auto m = std::make_shared<convex_mesh>();
    for (auto x : s.v) m->vertices.push_back(V(x));
    for (auto &f : s.f) { m->faces.push_back(uint32_t(m->indices.size())); m->faces.push_back(uint32_t(f.size())); for (auto i : f) m->indices.push_back(uint32_t(i)); }
    m->initialize();
    return m;
}
std::vector<quaternion> poses() { auto q = orientations(1); for (auto d : directions()) q.push_back(QA(d, 0.3)), q.push_back(QA(d, 1.9)); return q; }
const D3 places[] = {{0, 0, 0}, {3, -2, 1}, {-20, 0.5, 8}};
}

VP_SCENARIO(primitives) {
    const std::vector<double> S = {0.05, 0.5, 1, 3};
    for (auto &q : poses()) for (D3 p : places) for (double a : S) for (double b : S) for (double c : S) for (int ax = 0; ax < 3; ++ax) {
        if (!vp::begin()) continue;
        vp::describe("sizes %g %g %g axis %d at %s %s", a, b, c, ax, geo::str(p).c_str(), geo::str(q).c_str()); vp::nontrivial(a != b);
        auto A = coordinate_axis(ax); auto P = V(p); double ext = a + b + c + size_of(p);
        auto box = sym(p, [&](D3 d) { return w_box({a, b, c}, q, d); });
        equal(shape_aabb(box_shape{V({a, b, c})}, P, q), box, ext, "box");
        equal(box_aabb(V({a, b, c}), P, q), box, ext, "box");
        equal(shape_aabb(sphere_shape{scalar(a)}, P, q), sym(p, [&](D3) { return a; }), ext, "sphere");
        equal(shape_aabb(cylinder_shape{scalar(a), scalar(b), A}, P, q), sym(p, [&](D3 d) { return w_cyl(a, b, ax, q, d); }), ext, "cylinder");
        equal(shape_aabb(capsule_shape{scalar(a), scalar(b), A}, P, q), sym(p, [&](D3 d) { return w_cap(a, b, ax, q, d); }), ext, "capsule");
        shapes_variant_t var{cylinder_shape{scalar(a), scalar(b), A}};
        equal(shape_aabb(var, P, q), sym(p, [&](D3 d) { return w_cyl(a, b, ax, q, d); }), ext, "cylinder in a variant");
        // A box given in one space, bounded in the other.
        D3 c0{a, -b, c / 2};
        AABB in{V(c0 - D3{a, b, c}), V(c0 + D3{a, b, c})};
        equal(aabb_to_world_space(in, P, q), sym(to_world(c0, p, q), [&](D3 d) { return w_box({a, b, c}, q, d); }), ext * 2, "box taken to world space");
        auto qi = Q(-q.x, -q.y, -q.z, q.w);
        equal(aabb_to_object_space(in, P, q), sym(to_obj(c0, p, q), [&](D3 d) { return w_box({a, b, c}, qi, d); }), ext * 2, "box taken to object space");
    }
}

VP_SCENARIO(points) {
    for (auto &s : solids()) {
        auto m = mesh(s);
        std::vector<D3> v; for (auto &x : m->vertices) v.push_back(x);
        for (auto &q : poses()) for (D3 p : places) {
            if (!vp::begin()) continue;
            vp::describe("%s at %s %s", s.name, geo::str(p).c_str(), geo::str(q).c_str()); vp::nontrivial();
            std::vector<D3> w; for (auto x : v) w.push_back(to_world(x, p, q));
            auto b = cloud(w);
            equal(shape_aabb(polyhedron_shape{m}, V(p), q), b, 6 + size_of(p), "polyhedron");
            equal(point_cloud_aabb(m->vertices, V(p), q), b, 6 + size_of(p), "point cloud in a pose");
            std::vector<vector3> f; for (auto x : w) f.push_back(V(x));
            equal(point_cloud_aabb(f), b, 6 + size_of(p), "point cloud");
            equal(point_cloud_aabb(f.begin(), f.end()), b, 6 + size_of(p), "range of points");
            auto tm = std::make_shared<triangle_mesh>();
            std::vector<triangle_mesh::index_type> idx;
            for (auto &fc : s.f) for (size_t k = 1; k + 1 < fc.size(); ++k) { idx.push_back(fc[0]); idx.push_back(fc[k]); idx.push_back(fc[k + 1]); }
            tm->insert_vertices(f.begin(), f.end()); tm->insert_indices(idx.begin(), idx.end()); tm->initialize();
            std::vector<D3> t; for (auto x : w) t.push_back(x + D3{1, 2, 3});
            equal(shape_aabb(mesh_shape{tm}, V({1, 2, 3}), quaternion_identity), cloud(t), 8 + size_of(p), "triangle mesh");
        }
    }
}

// Planes: everything behind an axis-aligned plane within the world's reach is inside; nothing in front.
VP_SCENARIO(planes) {
    for (auto n : directions()) for (double c : {-50., -1., 0., 0.25, 3., 1000.}) {
        if (!vp::begin()) continue;
        vp::describe("plane %s at %g", geo::str(n).c_str(), c); vp::nontrivial();
        auto b = shape_aabb(plane_shape{V(n), scalar(c)}, vector3_zero, quaternion_identity);
        for (auto u : directions(false)) for (auto r : {0., 1., 100., 50000.}) {
            D3 x = u * r; double s = dt(x, n) - c;
            if (s < -0.01) VP_CHECK(b.contains(V(x)), "%s is behind the plane but outside of its box", geo::str(x).c_str());
        }
        int axis = -1; for (int k = 0; k < 3; ++k) if (std::abs(n[size_t(k)]) == 1) axis = k;
        if (axis >= 0) { auto k = size_t(axis); VP_CHECK(n[k] > 0 ? std::abs(b.max[k] - c) < 1e-2 : std::abs(b.min[k] + c) < 1e-2, "the box of an axis-aligned plane does not end at it"); }
    }
}

// Compounds of up to four shapes: bounds of nodes, of the whole, and what is visited.
VP_SCENARIO(compounds) {
    auto so = solids(); auto me = mesh(so[4]); auto qs = orientations(1);
    const D3 at[] = {{0, 0, 0}, {2.5, 0, 0}, {-1, 0.5, 3}, {0, -4, 0}};
    for (int n = 1; n <= 4; ++n) for (int kinds = 0; kinds < (n == 1 ? 5 : n == 2 ? 25 : n == 3 ? 125 : 625); ++kinds) for (size_t iq = 0; iq < qs.size(); iq += 3) {
        if (!vp::begin()) continue;
        vp::describe("%d shapes, kinds %d, orientation %zu", n, kinds, iq); vp::nontrivial(n > 1);
        compound_shape k; std::vector<DB> local;
        struct part { int kind; quaternion q; D3 p; }; std::vector<part> parts;
        int c = kinds;
        auto width = [&](int kind, const quaternion &q, D3 d) -> double { switch (kind) { case 0: return w_box({1, 0.5, 0.25}, q, d); case 1: return 0.75; case 2: return w_cyl(0.5, 1.5, 2, q, d); default: return w_cap(0.4, 1, 1, q, d); } };
        for (int i = 0; i < n; ++i, c /= 5) {
            auto q = qs[(iq + size_t(i) * 4) % qs.size()]; D3 p = at[i]; int kind = c % 5;
            switch (kind) { case 0: k.add_shape(box_shape{V({1, 0.5, 0.25})}, V(p), q); break; case 1: k.add_shape(sphere_shape{scalar(0.75)}, V(p), q); break; case 2: k.add_shape(cylinder_shape{scalar(0.5), scalar(1.5), coordinate_axis::z}, V(p), q); break;
                case 3: k.add_shape(capsule_shape{scalar(0.4), scalar(1), coordinate_axis::y}, V(p), q); break; default: k.add_shape(polyhedron_shape{me}, V(p), q); }
            parts.push_back({kind, q, p});
            if (kind < 4) local.push_back(sym(p, [&](D3 d) { return width(kind, q, d); }));
            else { std::vector<D3> w; for (auto &x : me->vertices) w.push_back(to_world(x, p, q)); local.push_back(cloud(w)); }
        }
        k.finish();
        VP_CHECK(k.nodes.size() == size_t(n), "%zu nodes", k.nodes.size());
        for (int i = 0; i < n; ++i) equal(k.nodes[size_t(i)].aabb, local[size_t(i)], 8, "node of a compound");
        // The whole encloses every shape in its pose and is no larger than the boxes of the nodes turned.
        for (size_t io = 0; io < qs.size(); io += 2) {
            auto q = qs[io]; D3 p{1, -1, 4};
            auto b = shape_aabb(k, V(p), q);
            DB want; bool first = true;
            for (auto &l : local) { auto t = sym(to_world((l.lo + l.hi) * 0.5, p, q), [&](D3 d) { return w_box((l.hi - l.lo) * 0.5, q, d); }); if (first) want = t; else for (size_t a = 0; a < 3; ++a) { want.lo[a] = std::min(want.lo[a], t.lo[a]); want.hi[a] = std::max(want.hi[a], t.hi[a]); } first = false; }
            for (size_t a = 0; a < 3; ++a) VP_CHECK(b.min[a] > want.lo[a] - 1e-4 && b.max[a] < want.hi[a] + 1e-4, "the box of a compound is larger than those of its turned nodes");
            for (auto &x : parts) {
                D3 cw = to_world(x.p, p, q);
                for (size_t a = 0; a < 3; ++a) {
                    D3 d = axis_dir(int(a)); double hi, lo;
                    if (x.kind < 4) { double w = width(x.kind, x.q, unrot(q, d)); hi = cw[a] + w; lo = cw[a] - w; }
                    else { hi = -1e9; lo = 1e9; for (auto &v : me->vertices) { double t = to_world(to_world(v, x.p, x.q), p, q)[a]; hi = std::max(hi, t); lo = std::min(lo, t); } }
                    VP_CHECK(b.max[a] > hi - 1e-4 && b.min[a] < lo + 1e-4, "a shape sticks out of its compound's box");
                }
            }
        }
        // Visits.
        for (D3 o : lattice({-2, 0, 2.5}, {-4, 0, 1}, {0, 3})) for (double s : {0.05, 1.}) {
            AABB qb{V(o - D3{s, s, s}), V(o + D3{s, s, s})};
            std::multiset<size_t> got;
            k.visit(qb, [&](auto &&sh, auto id) { got.insert(size_t(id)); VP_CHECK((void *)&sh == (void *)&std::get<std::decay_t<decltype(sh)>>(k.nodes[size_t(id)].shape_var), "a visit passes another shape than the node's"); });
            for (size_t i = 0; i < size_t(n); ++i) {
                double gap = -1e9; for (size_t a = 0; a < 3; ++a) gap = std::max(gap, std::max(local[i].lo[a] - qb.max[a], qb.min[a] - local[i].hi[a]));
                if (gap < -1e-4) VP_CHECK(got.count(i) == 1, "node %zu overlaps but is visited %zu times", i, got.count(i));
                if (gap > 1e-4) VP_CHECK(got.count(i) == 0, "node %zu does not overlap but is visited", i);
            }
        }
        for (D3 u : directions()) {
            D3 p0 = u * 10 + at[1] * 0.5, p1 = u * -10 + at[2] * 0.5;
            std::multiset<size_t> got;
            k.raycast(V(p0), V(p1), [&](auto &&, auto id) { got.insert(size_t(id)); });
            for (size_t i = 0; i < size_t(n); ++i) {
                auto hits = [&](double m) { double t0 = 0, t1 = 1; for (size_t a = 0; a < 3; ++a) { double d = p1[a] - p0[a], lo = local[i].lo[a] - m, hi = local[i].hi[a] + m; if (std::abs(d) < 1e-9) { if (p0[a] < lo || p0[a] > hi) return false; continue; } double x = (lo - p0[a]) / d, y = (hi - p0[a]) / d; t0 = std::max(t0, std::min(x, y)); t1 = std::min(t1, std::max(x, y)); } return t0 <= t1; };
                if (hits(-1e-3)) VP_CHECK(got.count(i) == 1, "the ray crosses node %zu, which is visited %zu times", i, got.count(i));
                if (!hits(1e-3)) VP_CHECK(got.count(i) == 0, "the ray misses node %zu, which is visited", i);
            }
        }
    }
}
