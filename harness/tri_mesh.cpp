// Triangle meshes: all sub-complexes of small surfaces; topology, normals, queries and per-vertex data.
#include "geo.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/util/shape_util.hpp"
#include <map>
#include <set>
// The mesh lets its builder set the materials of its vertices; this one stands in for it.
namespace edyn::detail { struct submesh_builder { template<typename M, typename I> static auto set(M &m, const I &ids, int) -> decltype(void(m.m_material_ids = ids), true) { m.m_material_ids = ids; return true; } template<typename M, typename I> static bool set(M &, const I &, long) { return false; } template<typename M, typename I> static bool set_materials(M &m, const I &ids) { return set(m, ids, 0); } }; }
using namespace edyn;
using namespace geo;
typedef uint32_t I;

namespace {
struct surface { std::string name; std::vector<D3> v; std::vector<std::array<I, 3>> t; };
std::vector<surface> surfaces() {
    std::vector<surface> r;
    r.push_back({"tetrahedron", {{1, 1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, -1, -1}}, {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}});
    r.push_back({"octahedron", {{1, 0, 0}, {-1, 0, 0}, {0, 2, 0}, {0, -2, 0}, {0, 0, 0.5}, {0, 0, -0.5}}, {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}}});
    for (int h = 0; h < 8; ++h) { // Height fields: flat, ridge, valley, peak, pit, saddle, terraces.
        double H[8][9] = {{0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 1, 0, 0, 1, 0}, {0, -1, 0, 0, -1, 0, 0, -1, 0}, {0, 0, 0, 0, 1, 0, 0, 0, 0}, {0, 0, 0, 0, -0.5, 0, 0, 0, 0}, {1, 0, -1, 0, 0, 0, -1, 0, 1}, {0, 0, 1, 0, 0, 1, 1, 1, 2}, {0.25, -1, 0.5, 2, 0, -0.75, 1, 0.125, -0.5}};
        surface s{"height field " + std::to_string(h), {}, {}};
        for (int z = 0; z < 3; ++z) for (int x = 0; x < 3; ++x) s.v.push_back({x * 1.5 - 1, H[h][z * 3 + x], z - 1.});
        for (I z = 0; z < 2; ++z) for (I x = 0; x < 2; ++x) { I a = z * 3 + x; s.t.push_back({a + 1, a, a + 3}); s.t.push_back({a + 3, a + 4, a + 1}); }
        r.push_back(s);
    }
    return r;
}
struct edge_info { std::vector<std::pair<I, int>> uses; };
}

VP_SCENARIO(sub_complexes) {
    for (auto &s : surfaces()) for (unsigned mask = 1; mask < (1u << s.t.size()); ++mask) for (int order = 0; order < 3; ++order) {
        if (!vp::begin()) continue;
        std::vector<std::array<I, 3>> ts; for (size_t i = 0; i < s.t.size(); ++i) { size_t k = order == 1 ? s.t.size() - 1 - i : i; if (mask >> k & 1) { auto t = s.t[k]; std::rotate(t.begin(), t.begin() + (order == 0 ? 0 : (k + order) % 3), t.end()); ts.push_back(t); } }
        vp::describer() = [&] { std::string r = s.name; for (auto &t : ts) r += " " + std::to_string(t[0]) + "-" + std::to_string(t[1]) + "-" + std::to_string(t[2]); return r; };
        std::vector<vector3> vs; for (auto v : s.v) vs.push_back(V(v));
        std::vector<I> ix; for (auto &t : ts) ix.insert(ix.end(), t.begin(), t.end());
        triangle_mesh m;
        if (order == 2) { size_t h = vs.size() / 2, k = ts.size() / 2 * 3; m.insert_vertices(vs.begin(), vs.begin() + h); m.insert_vertices(vs.begin() + h, vs.end()); m.insert_indices(ix.begin(), ix.begin() + k); m.insert_indices(ix.begin() + k, ix.end()); }
        else { m.insert_vertices(vs.begin(), vs.end()); m.insert_indices(ix.begin(), ix.end()); }
        m.initialize();
        VP_CHECK(m.num_vertices() == vs.size() && m.num_triangles() == ts.size(), "%zu vertices, %zu triangles", m.num_vertices(), m.num_triangles());
        for (size_t i = 0; i < vs.size(); ++i) VP_CHECK(m.get_vertex_position(i) == vs[i], "vertex %zu", i);
        // Edges.
        std::map<std::pair<I, I>, edge_info> edges;
        for (size_t f = 0; f < ts.size(); ++f) for (int i = 0; i < 3; ++i) edges[std::minmax(ts[f][i], ts[f][(i + 1) % 3])].uses.push_back({I(f), i});
        VP_CHECK(m.num_edges() == edges.size(), "%zu edges instead of %zu", m.num_edges(), edges.size());
        std::set<std::pair<I, I>> seen;
        std::vector<D3> N; for (auto &t : ts) N.push_back(unit(cr(s.v[t[1]] - s.v[t[0]], s.v[t[2]] - s.v[t[0]])));
        for (size_t e = 0; e < m.num_edges(); ++e) {
            auto vi = m.get_edge_vertex_indices(e); auto key = std::minmax(vi[0], vi[1]); auto pos = m.get_edge_vertices(e);
            VP_CHECK(edges.count(key) && seen.insert(key).second, "edge %zu, %u-%u, is not an edge of the mesh or is repeated", e, vi[0], vi[1]);
            VP_CHECK(pos[0] == vs[vi[0]] && pos[1] == vs[vi[1]], "vertices of edge %zu", e);
            auto &u = edges[key].uses; auto fi = m.get_edge_face_indices(e); bool bd = u.size() == 1;
            vp::nontrivial(!bd);
            VP_CHECK(m.is_boundary_edge(e) == bd, "edge %u-%u is %s at the boundary", vi[0], vi[1], bd ? "" : "not");
            std::set<I> want; for (auto &x : u) want.insert(x.first); std::set<I> got(fi.begin(), fi.end());
            VP_CHECK(want == got, "faces of edge %u-%u", vi[0], vi[1]);
            for (auto &x : u) VP_CHECK(m.get_face_edge_index(x.first, x.second) == e, "edge %d of triangle %u is not %zu", x.second, x.first, e);
            if (bd) VP_CHECK(m.is_convex_edge(e), "a boundary edge is not convex");
            else {
                // Convex: the other triangle's free vertex lies below the plane of this one.
                auto f = u[0].first, g = u[1].first; auto o = ts[g][(u[1].second + 2) % 3]; double h = dt(s.v[o] - s.v[ts[f][0]], N[f]);
                VP_CHECK(m.is_convex_edge(e) == (h < -1e-6), "edge %u-%u is %s", vi[0], vi[1], h < -1e-6 ? "convex" : "not convex");
            }
        }
        for (size_t f = 0; f < ts.size(); ++f) {
            auto tv = m.get_triangle_vertices(f);
            VP_CHECK(near(D3(m.get_triangle_normal(f)), N[f], 1e-6), "normal of triangle %zu", f);
            for (int i = 0; i < 3; ++i) {
                VP_CHECK(tv[i] == vs[ts[f][i]] && m.get_face_vertex_index(f, i) == ts[f][i], "vertex %d of triangle %zu", i, f);
                VP_CHECK(get_triangle_mesh_feature_index(m, f, triangle_feature::vertex, i) == ts[f][i] && get_triangle_mesh_feature_index(m, f, triangle_feature::edge, i) == m.get_face_edge_index(f, i) && get_triangle_mesh_feature_index(m, f, triangle_feature::face, i) == f, "feature index");
                auto &u = edges[std::minmax(ts[f][i], ts[f][(i + 1) % 3])].uses; D3 a = m.get_adjacent_face_normal(f, i);
                if (u.size() == 2) VP_CHECK(near(a, N[u[0].first == f ? u[1].first : u[0].first], 1e-6), "adjacent normal %d of triangle %zu", i, f);
                else { D3 out = unit(cr(s.v[ts[f][(i + 1) % 3]] - s.v[ts[f][i]], N[f])); VP_CHECK(near(nm(a), 1, 1e-6) && dt(a, N[f]) < -0.9 && dt(a, out) > 0.01 && std::abs(dt(a, s.v[ts[f][(i + 1) % 3]] - s.v[ts[f][i]])) < 1e-5, "adjacent normal at the boundary, edge %d of triangle %zu: %s", i, f, geo::str(a).c_str()); }
            }
        }
        // Queries.
        auto bounds = [&](size_t f, D3 &lo, D3 &hi) { lo = {1e9, 1e9, 1e9}; hi = lo * -1; for (auto i : ts[f]) for (int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], double(vs[i][k])); hi[k] = std::max(hi[k], double(vs[i][k])); } };
        D3 LO{1e9, 1e9, 1e9}, HI = LO * -1; for (size_t f = 0; f < ts.size(); ++f) { D3 lo, hi; bounds(f, lo, hi); for (int k = 0; k < 3; ++k) { LO[k] = std::min(LO[k], lo[k]); HI[k] = std::max(HI[k], hi[k]); } }
        VP_CHECK(near(D3(m.get_aabb().min), LO, 1e-7) && near(D3(m.get_aabb().max), HI, 1e-7), "bounding box of the mesh");
        size_t cnt = 0; m.visit_all([&](size_t i, const triangle_vertices &tv) { VP_CHECK(i == cnt && tv == m.get_triangle_vertices(i), "visit_all"); ++cnt; }); VP_CHECK(cnt == ts.size(), "visit_all visits %zu triangles", cnt);
        for (D3 c : {D3{0, 0, 0}, D3{1.2, 0.2, 0.5}, D3{-0.5, -0.5, -0.5}, D3{9, 9, 9}}) for (double h : {0.01, 0.6, 20.}) {
            std::map<size_t, int> hit; m.visit_triangles({V(c - D3{h, h, h}), V(c + D3{h, h, h})}, [&](size_t i) { ++hit[i]; });
            for (size_t f = 0; f < ts.size(); ++f) { D3 lo, hi; bounds(f, lo, hi); bool in = true; for (int k = 0; k < 3; ++k) in = in && lo[k] <= c[k] + h + 1e-6 && hi[k] >= c[k] - h - 1e-6; bool sure = true; for (int k = 0; k < 3; ++k) sure = sure && std::abs(lo[k] - c[k] - h) > 2e-6 && std::abs(hi[k] - c[k] + h) > 2e-6; if (sure) VP_CHECK(hit[f] == in, "the query around %s visits triangle %zu %d times", geo::str(c).c_str(), f, hit[f]); }
        }
        // A ray through each triangle's centroid finds it, once.
        for (size_t f = 0; f < ts.size(); ++f) { D3 c = (s.v[ts[f][0]] + s.v[ts[f][1]] + s.v[ts[f][2]]) / 3.; for (D3 d : {N[f], unit(D3{0.3, 1, 0.2})}) { int n = 0; m.raycast(V(c + d * 5), V(c - d * 5), [&](size_t i) { n += i == f; }); VP_CHECK(n == 1, "a ray through triangle %zu visits it %d times", f, n); n = 0; m.raycast(V(c + d * 20), V(c + d * 30), [&](size_t i) { n += i == f; }); VP_CHECK(n == 0, "a ray far from triangle %zu visits it", f); } }
    }
}

VP_SCENARIO(vertex_coefficients) {
    for (auto &s : surfaces()) for (int kind = 0; kind < 3; ++kind) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return s.name + " with coefficients " + std::to_string(kind); };
        std::vector<vector3> vs; for (auto v : s.v) vs.push_back(V(v)); std::vector<I> ix; for (auto &t : s.t) ix.insert(ix.end(), t.begin(), t.end());
        triangle_mesh m; m.insert_vertices(vs.begin(), vs.end()); m.insert_indices(ix.begin(), ix.end()); m.initialize();
        VP_CHECK(!m.has_per_vertex_friction() && !m.has_per_vertex_restitution() && !m.has_per_vertex_material_id(), "coefficients out of nowhere");
        std::vector<scalar> fr, re; for (size_t i = 0; i < vs.size(); ++i) { fr.push_back(scalar(kind ? 0.1 + 0.37 * double((i * 5) % 7) : 1)); re.push_back(scalar(kind == 2 ? 0.9 - 0.1 * double(i) : 0.05 * double(i))); }
        if (kind) { std::vector<scalar> junk(3, scalar(7)); m.insert_friction_coefficients(junk.begin(), junk.end()); m.insert_restitution_coefficients(junk.begin(), junk.end()); }
        m.insert_friction_coefficients(fr.begin(), fr.end()); VP_CHECK(m.has_per_vertex_friction() && m.has_per_vertex_restitution() == (kind > 0), "friction was set");
        m.insert_restitution_coefficients(re.begin(), re.end()); VP_CHECK(m.has_per_vertex_restitution(), "restitution was set");
        std::vector<material::id_type> ids; for (size_t i = 0; i < vs.size(); ++i) ids.push_back(material::id_type(3 + (i * 7) % 5));
        bool mats = edyn::detail::submesh_builder::set_materials(m, ids); VP_CHECK(!mats || m.has_per_vertex_material_id(), "material ids were set"); if (mats) for (size_t i = 0; i < vs.size(); ++i) VP_CHECK(m.get_vertex_material_id(i) == ids[i], "material of vertex %zu", i);
        m.set_thickness(scalar(0.25)); VP_CHECK(m.get_thickness() == scalar(0.25), "thickness");
        for (size_t i = 0; i < vs.size(); ++i) VP_CHECK(m.get_vertex_friction(i) == fr[i] && m.get_vertex_restitution(i) == re[i], "coefficient of vertex %zu", i);
        vp::nontrivial(kind > 0);
        for (size_t e = 0; e < m.num_edges(); ++e) for (double t : {0., 0.125, 0.5, 0.7, 1.}) {
            auto vi = m.get_edge_vertex_indices(e); D3 p = s.v[vi[0]] * (1 - t) + s.v[vi[1]] * t; double f = fr[vi[0]] * (1 - t) + fr[vi[1]] * t, r = re[vi[0]] * (1 - t) + re[vi[1]] * t;
            if (mats) for (int by = 0; by < 2; ++by) { auto in = by ? m.get_edge_material_id(e, V(p)) : m.get_edge_material_id(e, scalar(t)); double tot = 0; std::map<unsigned, double> got, want; for (auto &x : in) { got[x.id] += x.fraction; tot += x.fraction; } want[ids[vi[0]]] += 1 - t; want[ids[vi[1]]] += t; VP_CHECK(near(tot, 1, 1e-5), "fractions of the materials"); for (auto &kv : want) VP_CHECK(near(got[kv.first], kv.second, 1e-5), "material %u has %g instead of %g at the fraction %g of edge %zu", kv.first, got[kv.first], kv.second, t, e); }
            VP_CHECK(near(m.get_edge_friction(e, scalar(t)), f, 1e-5) && near(m.get_edge_restitution(e, scalar(t)), r, 1e-5), "coefficient at the fraction %g of edge %zu", t, e);
            VP_CHECK(near(m.get_edge_friction(e, V(p)), f, 1e-5) && near(m.get_edge_restitution(e, V(p)), r, 1e-5), "friction %g instead of %g at the point at %g of edge %zu", double(m.get_edge_friction(e, V(p))), f, t, e);
        }
        for (size_t f = 0; f < s.t.size(); ++f) for (double a : {0., 0.2, 0.5, 1.}) for (double b : {0., 0.3, 0.8}) {
            if (a + b > 1) continue;
            double c = 1 - a - b; auto t = s.t[f]; D3 p = s.v[t[0]] * a + s.v[t[1]] * b + s.v[t[2]] * c;
            VP_CHECK(near(D3(m.barycentric_coordinates(f, V(p))), D3{a, b, c}, 1e-5), "barycentric coordinates");
            // Off the plane of the triangle the projection counts.
            VP_CHECK(near(D3(m.barycentric_coordinates(f, V(p + D3(m.get_triangle_normal(f)) * 0.5))), D3{a, b, c}, 1e-5), "barycentric coordinates off the plane");
            if (mats) { std::map<unsigned, double> got, want; for (auto &x : m.get_face_material_id(f, V(p))) got[x.id] += x.fraction; want[ids[t[0]]] += a; want[ids[t[1]]] += b; want[ids[t[2]]] += c; for (auto &kv : want) VP_CHECK(near(got[kv.first], kv.second, 1e-5), "material %u has %g instead of %g within triangle %zu", kv.first, got[kv.first], kv.second, f); }
            VP_CHECK(near(m.interpolate_triangle(f, V(p), vector3{1, -2, 5}), a - 2 * b + 5 * c, 1e-4), "interpolation");
            VP_CHECK(near(m.get_face_friction(f, V(p)), fr[t[0]] * a + fr[t[1]] * b + fr[t[2]] * c, 1e-5) && near(m.get_face_restitution(f, V(p)), re[t[0]] * a + re[t[1]] * b + re[t[2]] * c, 1e-5), "coefficient within triangle %zu", f);
        }
    }
}
