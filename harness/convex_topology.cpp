// Derived data of convex meshes against the solids they were made from, and rotated meshes.
#include "geo.hpp"
#include "solids.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include "edyn/sys/update_rotated_meshes.hpp"
#include "edyn/util/shape_util.hpp"
#include <map>
#include <set>
using namespace edyn;
using namespace geo;

namespace {
convex_mesh raw(const solid &s, const std::vector<D3> &v, size_t shift, int order) {
    convex_mesh m;
    for (auto x : v) m.vertices.push_back(V(x));
    for (size_t i = 0; i < s.f.size(); ++i) {
        auto &f = s.f[order == 0 ? i : order == 1 ? s.f.size() - 1 - i : (i + s.f.size() / 2) % s.f.size()];
        m.faces.push_back(uint32_t(m.indices.size())); m.faces.push_back(uint32_t(f.size()));
        for (size_t k = 0; k < f.size(); ++k) m.indices.push_back(uint32_t(f[(k + shift) % f.size()]));
    }
    return m;
}
void check_mesh(const convex_mesh &m, const std::vector<D3> &centred, double ext) {
    const double T = 2e-5 * (1 + ext);
    size_t nf = m.faces.size() / 2;
    VP_CHECK(m.num_faces() == nf && m.normals.size() == nf, "%zu normals for %zu faces", m.normals.size(), nf);
    for (size_t i = 0; i < centred.size(); ++i) VP_CHECK(nm(D3(m.vertices[i]) - centred[i]) < T * 4, "vertex %zu is not placed relative to the centroid: %s instead of %s", i, geo::str(m.vertices[i]).c_str(), geo::str(centred[i]).c_str());
    std::map<std::pair<uint32_t, uint32_t>, std::vector<uint32_t>> edges; // undirected pair -> faces
    std::vector<std::set<uint32_t>> nb(m.vertices.size());
    std::vector<D3> fn;
    for (size_t f = 0; f < nf; ++f) {
        auto first = m.faces[2 * f], cnt = m.faces[2 * f + 1];
        VP_CHECK(m.face_vertex_count(f) == cnt && m.first_vertex_index(f) == m.indices[first], "face %zu is reported wrong", f);
        std::vector<D3> p; for (uint32_t k = 0; k < cnt; ++k) { VP_CHECK(m.face_vertex_index(f, k) == m.indices[first + k], "face vertex"); p.push_back(m.vertices[m.indices[first + k]]); }
        D3 n; for (size_t k = 0; k < cnt; ++k) n = n + cr(p[k] - p[0], p[(k + 1) % cnt] - p[0]);
        fn.push_back(unit(n));
        VP_CHECK(nm(D3(m.normals[f]) - fn[f]) < 1e-3, "normal of face %zu is %s instead of %s", f, geo::str(m.normals[f]).c_str(), geo::str(fn[f]).c_str());
        VP_CHECK(std::abs(nm(D3(m.normals[f])) - 1) < 1e-5, "normal of face %zu is no unit vector", f);
        for (uint32_t k = 0; k < cnt; ++k) { auto a = m.indices[first + k], b = m.indices[first + (k + 1) % cnt]; edges[{std::min(a, b), std::max(a, b)}].push_back(uint32_t(f)); nb[a].insert(b); nb[b].insert(a); }
    }
    VP_CHECK(m.num_edges() == edges.size() && m.edge_faces.size() == 2 * edges.size() && m.edge_vertices.size() == 2 * edges.size() && m.edge_normals.size() == 2 * edges.size(), "%zu edges instead of %zu", m.num_edges(), edges.size());
    std::set<std::pair<uint32_t, uint32_t>> seen;
    for (size_t e = 0; e < m.num_edges(); ++e) {
        auto ev = m.get_edge_vertices(e); auto key = std::make_pair(std::min(ev[0], ev[1]), std::max(ev[0], ev[1]));
        VP_CHECK(edges.count(key), "edge %zu is not an edge of a face", e);
        VP_CHECK(seen.insert(key).second, "edge %zu is listed twice", e);
        auto ef = m.get_edge_faces(e); std::set<uint32_t> a(ef.begin(), ef.end()), b(edges[key].begin(), edges[key].end());
        VP_CHECK(a == b && a.size() == 2, "edge %zu does not know its two faces", e);
        auto g = m.get_edge(e); auto d = m.get_edge_direction(e); auto en = m.get_edge_face_normals(e);
        for (size_t k = 0; k < 2; ++k) {
            VP_CHECK(g[k] == m.vertices[ev[k]] && m.edge_vertices[2 * e + k] == m.vertices[ev[k]], "end of edge %zu is not its vertex", e);
            VP_CHECK(en[k] == m.normals[ef[k]] && m.edge_normals[2 * e + k] == m.normals[ef[k]], "normal at edge %zu is not its face's", e);
        }
        VP_CHECK(d == m.vertices[ev[1]] - m.vertices[ev[0]], "direction of edge %zu", e);
        if (nm(cr(fn[ef[0]], fn[ef[1]])) > 1e-3) VP_CHECK(dt(cr(fn[ef[0]], fn[ef[1]]), d) > 0, "the normals at edge %zu turn against its direction", e);
    }
    VP_CHECK(m.neighbors_start.size() == m.vertices.size() + 1 && m.neighbors_start[0] == 0 && m.neighbors_start.back() == m.neighbor_indices.size(), "vertex neighbourhoods have wrong ranges");
    for (size_t v = 0; v < m.vertices.size(); ++v) {
        VP_CHECK(m.neighbors_start[v] <= m.neighbors_start[v + 1], "neighbourhood of vertex %zu", v);
        std::multiset<uint32_t> got(m.neighbor_indices.begin() + m.neighbors_start[v], m.neighbor_indices.begin() + m.neighbors_start[v + 1]);
        VP_CHECK(got == std::multiset<uint32_t>(nb[v].begin(), nb[v].end()), "vertex %zu does not list each neighbour once", v);
    }
    // Relevant directions: each direction is represented exactly once.
    VP_CHECK(m.relevant_normals.size() == m.relevant_faces.size(), "relevant normals");
    for (size_t i = 0; i < m.relevant_faces.size(); ++i) { VP_CHECK(m.relevant_faces[i] < nf && m.relevant_normals[i] == m.normals[m.relevant_faces[i]], "relevant normal %zu is not its face's", i);
        for (size_t j = 0; j < i; ++j) VP_CHECK(dt(fn[m.relevant_faces[i]], fn[m.relevant_faces[j]]) < 1 - 1e-7, "two relevant faces share a direction"); }
    for (size_t f = 0; f < nf; ++f) { bool ok = false; for (auto r : m.relevant_faces) ok |= dt(fn[r], fn[f]) > 1 - 1e-3; VP_CHECK(ok, "no relevant face stands for face %zu", f); }
    auto dir = [&](size_t e) { auto ev = m.get_edge_vertices(e); return unit(D3(m.vertices[ev[1]]) - D3(m.vertices[ev[0]])); };
    for (size_t i = 0; i < m.relevant_edges.size(); ++i) { VP_CHECK(m.relevant_edges[i] < m.num_edges(), "relevant edge"); for (size_t j = 0; j < i; ++j) VP_CHECK(std::abs(dt(dir(m.relevant_edges[i]), dir(m.relevant_edges[j]))) < 1 - 1e-7, "two relevant edges share a direction"); }
    for (size_t e = 0; e < m.num_edges(); ++e) { bool ok = false; for (auto r : m.relevant_edges) ok |= std::abs(dt(dir(r), dir(e))) > 1 - 1e-3; VP_CHECK(ok, "no relevant edge stands for edge %zu", e); }
}
void check_rotated(const convex_mesh &m, const rotated_mesh &r, const quaternion &q, double ext) {
    const double T = 1e-5 * (1 + ext);
    VP_CHECK(r.vertices.size() == m.vertices.size() && r.normals.size() == m.normals.size() && r.relevant_normals.size() == m.relevant_faces.size() && r.edge_vertices.size() == m.edge_vertices.size() && r.edge_normals.size() == m.edge_normals.size(), "the rotated mesh has another layout");
    for (size_t i = 0; i < r.vertices.size(); ++i) VP_CHECK(nm(D3(r.vertices[i]) - rot(q, m.vertices[i])) < T, "rotated vertex %zu", i);
    for (size_t i = 0; i < r.normals.size(); ++i) VP_CHECK(nm(D3(r.normals[i]) - rot(q, m.normals[i])) < 1e-5, "rotated normal %zu", i);
    for (size_t i = 0; i < r.relevant_normals.size(); ++i) VP_CHECK(nm(D3(r.relevant_normals[i]) - rot(q, m.relevant_normals[i])) < 1e-5, "rotated relevant normal %zu", i);
    for (size_t e = 0; e < m.num_edges(); ++e) {
        auto ev = m.get_edge_vertices(e); auto g = m.get_rotated_edge(r, e); auto d = m.get_rotated_edge_direction(r, e); auto rv = r.get_edge_vertices(e); auto rn = r.get_edge_normals(e); auto ef = m.get_edge_faces(e);
        for (size_t k = 0; k < 2; ++k) VP_CHECK(nm(D3(g[k]) - rot(q, m.vertices[ev[k]])) < T && rv[k] == g[k] && nm(D3(rn[k]) - rot(q, m.normals[ef[k]])) < 1e-5, "rotated edge %zu", e);
        VP_CHECK(nm(D3(d) - (D3(g[1]) - D3(g[0]))) < T, "direction of rotated edge %zu", e);
    }
}
std::vector<solid> all() {
    auto r = solids();
    // A box with vertices in the middle of some edges: collinear runs in faces.
    solid b{"box with split edges", {}, {}};
    for (int i = 0; i < 8; ++i) b.v.push_back({i & 1 ? 1. : -1., i & 2 ? 1. : -1., i & 4 ? 1. : -1.});
    b.v.push_back({0, -1, -1}); b.v.push_back({0.5, -1, -1}); b.v.push_back({1, 0, 1});
    b.f = {{0, 8, 9, 1, 3, 2}, {4, 5, 10, 7, 6}, {0, 8, 9, 1, 5, 4}, {2, 3, 7, 6}, {0, 2, 6, 4}, {1, 3, 7, 10, 5}};
    D3 o; for (auto &f : b.f) { D3 n; for (size_t k = 0; k < f.size(); ++k) n = n + cr(b.v[f[k]] - b.v[f[0]], b.v[f[(k + 1) % f.size()]] - b.v[f[0]]); if (dt(n, b.v[f[0]]) < 0) std::reverse(f.begin(), f.end()); }
    r.push_back(b);
    return r;
}
}

VP_SCENARIO(topology) {
    for (auto &s : all()) for (size_t shift = 0; shift < 6; ++shift) for (int order = 0; order < 3; ++order) for (auto &q : orientations(1)) for (D3 pos : {D3{0, 0, 0}, D3{2, -3, 1}}) for (D3 sc : {D3{1, 1, 1}, D3{0.25, 0.25, 0.25}, D3{3, 1, 0.5}}) {
        if (!vp::begin()) continue;
        vp::describe("%s of %zu vertices, first vertex %zu, order %d, %s %s scale %s", s.name, s.v.size(), shift, order, geo::str(q).c_str(), geo::str(pos).c_str(), geo::str(sc).c_str());
        std::vector<D3> v; for (auto x : s.v) v.push_back(pos + rot(q, {x.x * sc.x, x.y * sc.y, x.z * sc.z}));
        double vol; D3 cen; moments(s, v, vol, cen); vp::nontrivial(nm(cen) > 0.1);
        double ext = 0; std::vector<D3> c; for (auto x : v) { ext = std::max(ext, nm(x)); c.push_back(x - cen); }
        auto m = raw(s, v, shift, order);
        m.initialize();
        check_mesh(m, c, ext);
        VP_CHECK(m.validate(), "a convex mesh does not validate");
        m.update_calculated_properties();
        check_mesh(m, c, ext);
        auto r = make_rotated_mesh(m, quaternion_identity);
        check_rotated(m, r, quaternion_identity, ext);
        for (auto &p : orientations(1)) { check_rotated(m, make_rotated_mesh(m, p), p, ext); update_rotated_mesh(r, m, p); check_rotated(m, r, p, ext); }
    }
}

// Meshes that are not convex or have bent faces are told apart.
VP_SCENARIO(validation) {
    for (auto &s : all()) for (size_t shift = 0; shift < 3; ++shift) for (auto &q : orientations(1)) for (size_t vi = 0; vi < s.v.size(); ++vi) for (double by : {-0.3, 0.3}) {
        if (!vp::begin()) continue;
        vp::describe("%s of %zu vertices, vertex %zu moved by %g, first vertex %zu", s.name, s.v.size(), vi, by, shift);
        std::vector<D3> v; for (auto x : s.v) v.push_back(rot(q, x));
        double vol; D3 cen; moments(s, v, vol, cen);
        v[vi] = v[vi] + unit(v[vi] - cen) * by;
        auto m = raw(s, v, shift, 0);
        m.shift_to_centroid(); m.update_calculated_properties();
        // Oracle: planar faces by the farthest vertex from the plane of the face, convex by the same for all vertices.
        bool good = true, clear = true; double worst = 0;
        for (auto &f : s.f) {
            size_t k = f.size(); D3 n;
            for (size_t i = 0; i < k; ++i) n = n + cr(v[f[i]] - v[f[0]], v[f[(i + 1) % k]] - v[f[0]]);
            n = unit(n);
            for (size_t i = 0; i < v.size(); ++i) { double d = dt(v[i] - v[f[0]], n); bool on = std::find(f.begin(), f.end(), int(i)) != f.end(); worst = std::max(worst, on ? std::abs(d) : d); }
        }
        good = worst < 1e-3; clear = worst < 1e-4 || worst > 0.05;
        if (!clear) continue;
        vp::nontrivial(!good);
        VP_CHECK(m.validate() == good, "validate() is %d for a mesh with a deviation of %g", int(m.validate()), worst);
    }
}
