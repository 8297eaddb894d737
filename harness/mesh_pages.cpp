// Triangle meshes written to and read from archives and files, split into pages, and paged in and out.
#include "geo.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/shapes/paged_triangle_mesh.hpp"
#include "edyn/shapes/create_paged_triangle_mesh.hpp"
#include "edyn/serialization/triangle_mesh_s11n.hpp"
#include "edyn/serialization/paged_triangle_mesh_s11n.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/file_archive.hpp"
#include "edyn/util/paged_mesh_load_reporting.hpp"
#include "edyn/parallel/message.hpp"
#include <map>
#include <set>
#include <fstream>
using namespace edyn;
using namespace geo;
typedef uint32_t I;

namespace {
struct surface { std::string name; std::vector<vector3> v; std::vector<I> ix; std::vector<vector3> colors; };
surface field(int nx, int nz, int kind) {
    surface s{"height field", {}, {}, {}};
    s.name += " " + std::to_string(nx) + "x" + std::to_string(nz) + " kind " + std::to_string(kind);
    for (int z = 0; z <= nz; ++z) for (int x = 0; x <= nx; ++x) {
        double h = kind == 0 ? 0 : kind == 1 ? ((x + z) % 3) * 0.5 : (x * x - z * z) * 0.125;
        s.v.push_back({scalar(x * 1.5), scalar(h), scalar(z)});
        s.colors.push_back({scalar((x % 5) * 0.25), scalar((z % 3) * 0.5), scalar((x + 2 * z) % 7 / 255.)});
    }
    for (int z = 0; z < nz; ++z) for (int x = 0; x < nx; ++x) {
        I a = z * (nx + 1) + x, b = a + 1, c = a + nx + 1, d = c + 1;
        for (I i : {b, a, c}) s.ix.push_back(i);
        for (I i : {c, d, b}) s.ix.push_back(i);
    }
    return s;
}
surface tetra() { surface s{"tetrahedron", {{1, 1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, -1, -1}}, {0, 2, 1, 0, 1, 3, 0, 3, 2, 1, 2, 3}, {}}; for (int i = 0; i < 4; ++i) s.colors.push_back({scalar(i * 0.25), scalar(1 - i * 0.25), scalar(i / 255.)}); return s; }
std::vector<surface> surfaces() {
    std::vector<surface> r{tetra()};
    for (int k = 0; k < 3; ++k) { r.push_back(field(1, 1, k)); r.push_back(field(3, 2, k)); r.push_back(field(4, 4, k)); }
    surface one{"triangle", {{0, 0, 0}, {1, 0, 0}, {0, 0, 1}}, {0, 2, 1}, {{1, 0, 0}, {0, 1, 0}, {0, 0, scalar(3 / 255.)}}};
    r.push_back(one);
    if (vp::thorough()) { r.push_back(field(8, 8, 1)); r.push_back(field(12, 3, 2)); }
    return r;
}
triangle_mesh whole(const surface &s, int extra) {
    triangle_mesh m; m.insert_vertices(s.v.begin(), s.v.end()); m.insert_indices(s.ix.begin(), s.ix.end());
    std::vector<scalar> f, e; for (auto &c : s.colors) { f.push_back(c.x); e.push_back(c.y); }
    if (extra & 1) m.insert_friction_coefficients(f.begin(), f.end());
    if (extra & 2) m.insert_restitution_coefficients(e.begin(), e.end());
    m.initialize(); if (extra & 4) m.set_thickness(scalar(0.25));
    return m;
}
void same_mesh(const triangle_mesh &a, const triangle_mesh &b, const char *what) {
    VP_CHECK(a.num_vertices() == b.num_vertices() && a.num_triangles() == b.num_triangles() && a.num_edges() == b.num_edges(), "%s has another number of features", what);
    for (size_t i = 0; i < a.num_vertices(); ++i) VP_CHECK(a.get_vertex_position(i) == b.get_vertex_position(i), "vertex %zu of %s differs", i, what);
    for (size_t i = 0; i < a.num_triangles(); ++i) {
        VP_CHECK(a.get_triangle_normal(i) == b.get_triangle_normal(i), "normal %zu of %s differs", i, what);
        for (int k = 0; k < 3; ++k) VP_CHECK(a.get_face_vertex_index(i, k) == b.get_face_vertex_index(i, k) && a.get_face_edge_index(i, k) == b.get_face_edge_index(i, k) && a.get_adjacent_face_normal(i, k) == b.get_adjacent_face_normal(i, k), "triangle %zu of %s differs", i, what);
    }
    for (size_t i = 0; i < a.num_edges(); ++i)
        VP_CHECK(a.get_edge_vertex_indices(i) == b.get_edge_vertex_indices(i) && a.get_edge_face_indices(i) == b.get_edge_face_indices(i) && a.is_boundary_edge(i) == b.is_boundary_edge(i) && a.is_convex_edge(i) == b.is_convex_edge(i), "edge %zu of %s differs", i, what);
    VP_CHECK(a.has_per_vertex_friction() == b.has_per_vertex_friction() && a.has_per_vertex_restitution() == b.has_per_vertex_restitution() && a.has_per_vertex_material_id() == b.has_per_vertex_material_id(), "%s has other per-vertex properties", what);
    for (size_t i = 0; i < a.num_vertices(); ++i) {
        if (a.has_per_vertex_friction()) VP_CHECK(a.get_vertex_friction(i) == b.get_vertex_friction(i), "friction %zu of %s differs", i, what);
        if (a.has_per_vertex_restitution()) VP_CHECK(a.get_vertex_restitution(i) == b.get_vertex_restitution(i), "restitution %zu of %s differs", i, what);
        if (a.has_per_vertex_material_id()) VP_CHECK(a.get_vertex_material_id(i) == b.get_vertex_material_id(i), "material %zu of %s differs", i, what);
    }
    VP_CHECK(a.get_thickness() == b.get_thickness(), "thickness of %s differs", what);
    VP_CHECK(a.get_aabb().min == b.get_aabb().min && a.get_aabb().max == b.get_aabb().max, "bounds of %s differ", what);
    for (int q = 0; q < 27; ++q) {
        auto lo = a.get_aabb().min, d = a.get_aabb().max - lo; D3 c{lo.x + d.x * (q % 3) / 2., lo.y + d.y * (q / 3 % 3) / 2., lo.z + d.z * (q / 9) / 2.};
        AABB box{V(c - D3{0.4, 0.4, 0.4}), V(c + D3{0.4, 0.4, 0.4})}; std::vector<I> x, y; a.visit_triangles(box, [&](I t) { x.push_back(t); }); b.visit_triangles(box, [&](I t) { y.push_back(t); });
        VP_CHECK(x == y, "a query of %s finds other triangles", what);
    }
}
}
VP_SCENARIO(mesh_round_trip) {
    for (auto &s : surfaces()) for (int extra = 0; extra < 8; ++extra) for (int used = 0; used < 3; ++used) {
        if (!vp::begin()) continue;
        vp::describe("%s, extra %d, destination %d", s.name.c_str(), extra, used);
        auto m = whole(s, extra), ref = whole(s, extra);
        triangle_mesh back, fback;
        if (used) { back = whole(field(5, 1, 1), used == 1 ? 7 : 0); fback = whole(tetra(), used == 1 ? 7 : 0); }
        std::vector<uint8_t> data; { memory_output_archive ar(data); serialize(ar, m); }
        VP_CHECK(serialization_sizeof(m) == data.size(), "the announced size is %zu but %zu bytes are written", serialization_sizeof(m), data.size());
        { file_output_archive ar("mesh.bin"); serialize(ar, m); }
        same_mesh(m, ref, "a mesh that was written");
        { memory_input_archive ar(data.data(), data.size()); serialize(ar, back); VP_CHECK(!ar.failed() && ar.eof(), "reading back fails or leaves bytes"); }
        same_mesh(back, ref, "a mesh read from memory");
        { file_input_archive ar("mesh.bin"); VP_CHECK(ar.is_file_open(), "the file is not opened"); serialize(ar, fback); VP_CHECK(ar.tell_position() == data.size(), "the file has another size than the memory"); }
        same_mesh(fback, ref, "a mesh read from a file");
        vp::states(); vp::nontrivial(); vp::transitions(2);
    }
}
namespace {
struct pages {
    std::shared_ptr<paged_triangle_mesh> m;
    std::vector<std::shared_ptr<triangle_mesh>> all; // kept alive
};
typedef std::array<std::array<scalar, 3>, 3> tri_key;
tri_key key_of(const triangle_vertices &t) { tri_key k; for (int i = 0; i < 3; ++i) k[i] = {t[i].x, t[i].y, t[i].z}; return k; }
void build(paged_triangle_mesh &p, const surface &s, size_t max_tri, bool colors) {
    create_paged_triangle_mesh(p, s.v.begin(), s.v.end(), s.ix.begin(), s.ix.end(), max_tri, colors ? s.colors : std::vector<vector3>{}, vector3{2, 1, 1}, nullptr);
}
// Every triangle of the whole mesh is in exactly one page, with its normals, adjacent normals,
// convexity of its edges and the values at its vertices.
void same_as_whole(paged_triangle_mesh &p, const surface &s, const triangle_mesh &w, size_t max_tri, bool colors) {
    std::map<tri_key, I> tris; for (I t = 0; t < w.num_triangles(); ++t) tris[key_of(w.get_triangle_vertices(t))] = t;
    std::map<std::array<scalar, 3>, I> verts; for (I i = 0; i < s.v.size(); ++i) verts[{s.v[i].x, s.v[i].y, s.v[i].z}] = i;
    std::set<I> seen;
    for (size_t k = 0; k < p.num_submeshes(); ++k) {
        auto sub = p.get_submesh(k); VP_CHECK(sub != nullptr, "page %zu is not loaded", k);
        VP_CHECK(sub->num_triangles() >= 1 && sub->num_triangles() <= max_tri, "page %zu has %zu triangles, more than %zu", k, sub->num_triangles(), max_tri);
        std::set<I> used;
        for (size_t t = 0; t < sub->num_triangles(); ++t) {
            auto tv = sub->get_triangle_vertices(t); auto it = tris.find(key_of(tv));
            VP_CHECK(it != tris.end() && seen.insert(it->second).second, "triangle %zu of page %zu is not in the mesh or is repeated", t, k);
            VP_CHECK(key_of(p.get_triangle_vertices(k, t)) == key_of(tv), "the vertices of a triangle differ");
            I g = it->second;
            VP_CHECK(sub->get_triangle_normal(t) == w.get_triangle_normal(g), "normal of triangle %zu of page %zu", t, k);
            for (int i = 0; i < 3; ++i) {
                VP_CHECK(sub->get_adjacent_face_normal(t, i) == w.get_adjacent_face_normal(g, i), "adjacent normal of triangle %zu of page %zu", t, k);
                VP_CHECK(sub->is_convex_edge(sub->get_face_edge_index(t, i)) == w.is_convex_edge(w.get_face_edge_index(g, i)), "convexity of edge %d of triangle %zu of page %zu", i, t, k);
                auto vi = sub->get_face_vertex_index(t, i); used.insert(vi); I gv = w.get_face_vertex_index(g, i);
                if (colors) VP_CHECK(near(sub->get_vertex_friction(vi), 2. * s.colors[gv].x, 1e-6) && near(sub->get_vertex_restitution(vi), s.colors[gv].y, 1e-6) && sub->get_vertex_material_id(vi) == material::id_type(std::lround(s.colors[gv].z * 255)), "values at a vertex of page %zu", k);
            }
        }
        VP_CHECK(used.size() == sub->num_vertices(), "page %zu has unused vertices", k);
        VP_CHECK(sub->has_per_vertex_friction() == colors && sub->has_per_vertex_restitution() == colors && sub->has_per_vertex_material_id() == colors, "per-vertex values of page %zu", k);
        VP_CHECK(sub->get_thickness() == p.get_thickness(), "thickness of page %zu is %g instead of %g", k, double(sub->get_thickness()), double(p.get_thickness()));
    }
    VP_CHECK(seen.size() == w.num_triangles(), "%zu of %zu triangles are in the pages", seen.size(), w.num_triangles());
    VP_CHECK(p.has_per_vertex_friction() == colors && p.has_per_vertex_restitution() == colors && p.has_per_vertex_material_id() == colors, "per-vertex values of the paged mesh");
    auto bb = p.get_aabb(), wb = w.get_aabb(); VP_CHECK(bb.min == wb.min && bb.max == wb.max, "the bounds differ from the whole mesh");
}
// Queries of the paged mesh find what queries of the whole mesh find.
void same_queries(paged_triangle_mesh &p, const surface &s, const triangle_mesh &w, bool colors) {
    auto lo = w.get_aabb().min, d = w.get_aabb().max - lo;
    auto keys = [&](auto &&q) { std::multiset<tri_key> r; q(r); return r; };
    for (int q = 0; q < 64; ++q) {
        D3 c{lo.x + d.x * (q % 4) / 3., lo.y + d.y * (q / 4 % 4) / 3., lo.z + d.z * (q / 16) / 3.}; double e = q % 3 == 0 ? 0.1 : 0.8;
        AABB box{V(c - D3{e, e, e}), V(c + D3{e, e, e})};
        auto want = keys([&](auto &r) { w.visit_triangles(box, [&](I t) { r.insert(key_of(w.get_triangle_vertices(t))); }); });
        auto got = keys([&](auto &r) { p.visit_triangles(box, [&](auto k, auto t) { r.insert(key_of(p.get_triangle_vertices(k, t))); }); });
        VP_CHECK(want == got, "a box query finds %zu triangles instead of %zu", got.size(), want.size());
        auto cached = keys([&](auto &r) { p.visit_cached_triangles(box, [&](auto k, auto t) { r.insert(key_of(p.get_triangle_vertices(k, t))); }); });
        VP_CHECK(want == cached, "a cached box query finds %zu triangles instead of %zu", cached.size(), want.size());
        vector3 p0 = V(c + D3{0.3, 3, 0.1}), p1 = V(c + D3{-0.2, -3, 0.4});
        want = keys([&](auto &r) { w.raycast(p0, p1, [&](I t) { r.insert(key_of(w.get_triangle_vertices(t))); }); });
        got = keys([&](auto &r) { p.raycast(p0, p1, [&](auto k, auto t) { r.insert(key_of(p.get_triangle_vertices(k, t))); }); });
        VP_CHECK(want == got, "a ray query finds %zu triangles instead of %zu", got.size(), want.size());
        cached = keys([&](auto &r) { p.raycast_cached(p0, p1, [&](auto k, auto t) { r.insert(key_of(p.get_triangle_vertices(k, t))); }); });
        VP_CHECK(want == cached, "a cached ray query finds other triangles");
    }
    if (colors) for (I t = 0; t < w.num_triangles(); ++t) {
        // Well inside of a triangle only that one is near.
        auto tv = w.get_triangle_vertices(t); vector3 c = tv[0] * scalar(0.5) + tv[1] * scalar(0.3) + tv[2] * scalar(0.2);
        size_t n = 0; w.visit_triangles({c - vector3_one * scalar(0.005), c + vector3_one * scalar(0.005)}, [&](I) { ++n; }); if (n != 1) continue;
        double f = 0, r = 0, wt[3] = {0.5, 0.3, 0.2}; for (int i = 0; i < 3; ++i) { auto &col = s.colors[w.get_face_vertex_index(t, i)]; f += wt[i] * 2 * col.x; r += wt[i] * col.y; }
        VP_CHECK(near(p.get_friction(c), f, 1e-4) && near(p.get_restitution(c), r, 1e-4), "the coefficients inside triangle %u are %g, %g instead of %g, %g", t, double(p.get_friction(c)), double(p.get_restitution(c)), f, r);
        auto mi = p.get_material_id(c); for (int i = 0; i < 3; ++i) { auto id = std::lround(s.colors[w.get_face_vertex_index(t, i)].z * 255); VP_CHECK(mi[i].id == id && near(mi[i].fraction, wt[i], 1e-4), "material %d inside triangle %u", i, t); }
        vp::nontrivial();
    }
}
}
VP_SCENARIO(paged_equals_whole) {
    for (auto &s : surfaces()) for (size_t max_tri = 1; max_tri <= s.ix.size() / 3 + 1; ++max_tri) for (int colors = 0; colors < 2; ++colors) for (int mode = 0; mode < 2; ++mode) {
        if (!vp::begin()) continue;
        vp::describe("%s, %zu triangles per page, %s, %s", s.name.c_str(), max_tri, colors ? "with vertex colors" : "plain", mode ? "external files" : "embedded");
        auto w = whole(s, 0);
        auto m = (mode + max_tri) % 2 ? paged_triangle_mesh_serialization_mode::external : paged_triangle_mesh_serialization_mode::embedded;
        m = mode ? paged_triangle_mesh_serialization_mode::external : paged_triangle_mesh_serialization_mode::embedded;
        paged_triangle_mesh p(nullptr); build(p, s, max_tri, colors);
        if (max_tri % 2) p.set_thickness(scalar(0.5));
        same_as_whole(p, s, w, max_tri, colors); same_queries(p, s, w, colors);
        std::string path = max_tri % 3 == 0 ? "noext" : "pa.ged.bin";
        { paged_triangle_mesh_file_output_archive out(path, m); serialize(out, p); }
        same_as_whole(p, s, w, max_tri, colors); // writing does not alter it
        auto in = std::make_shared<paged_triangle_mesh_file_input_archive>(path, nullptr);
        paged_triangle_mesh q(in); serialize(*in, q);
        VP_CHECK(q.num_submeshes() == p.num_submeshes() && q.get_thickness() == p.get_thickness() && q.cache_num_vertices() == 0, "number of pages, thickness or initial cache of the paged mesh read back");
        // Pages in any order: backwards, then all.
        for (size_t k = q.num_submeshes(); k--;) in->load(&q, k);
        for (size_t k = 0; k < q.num_submeshes(); ++k) { VP_CHECK(q.get_submesh(k) != nullptr, "page %zu is not loaded", k); same_mesh(*q.get_submesh(k), *p.get_submesh(k), "a page read back"); }
        same_as_whole(q, s, w, max_tri, colors); same_queries(q, s, w, colors);
        q.clear_cache(); VP_CHECK(q.cache_num_vertices() == 0, "the cache is not empty after clearing it");
        size_t n = 0; q.visit_submeshes(q.get_aabb(), [&](size_t) { ++n; }); // loads all pages that fit
        VP_CHECK(n == q.num_submeshes(), "%zu of %zu pages are visited", n, q.num_submeshes());
        same_as_whole(q, s, w, max_tri, colors);
        vp::states(q.num_submeshes()); vp::nontrivial(); vp::transitions(q.num_submeshes());
        for (size_t k = 0; k <= q.num_submeshes(); ++k) std::remove(get_submesh_path(path, k).c_str());
        std::remove(path.c_str());
    }
}
// All sequences of visits with a small cache: which pages are loaded follows the recency of visits.
namespace { struct load_log { std::vector<size_t> v; void on(message<msg::paged_triangle_mesh_load_page> &m) { v.push_back(m.content.mesh_index); } }; }
VP_SCENARIO(page_cache_sequences) {
    auto s = field(4, 1, 1); auto w = whole(s, 0);
    paged_triangle_mesh src(nullptr); build(src, s, 2, true);
    { paged_triangle_mesh_file_output_archive out("cache.bin", paged_triangle_mesh_serialization_mode::embedded); serialize(out, src); }
    size_t n = src.num_submeshes();
    auto queue = message_dispatcher::global().make_queue<msg::paged_triangle_mesh_load_page>(internal::paged_mesh_load_queue_identifier);
    load_log log; queue.sink<msg::paged_triangle_mesh_load_page>().connect<&load_log::on>(log);
    std::vector<size_t> nv; std::vector<AABB> at;
    for (size_t k = 0; k < n; ++k) { nv.push_back(src.get_submesh(k)->num_vertices()); auto b = src.get_submesh(k)->get_aabb(); auto c = b.center(); at.push_back({c - vector3_one * scalar(0.1), c + vector3_one * scalar(0.1)}); }
    // Operations: visit page k, visit everything, clear the cache, set the thickness.
    const int ops = int(n) + 4, depth = vp::thorough() ? 6 : 5; VP_CHECK(n >= 3, "%zu pages", n);
    for (size_t limit : {9u, 13u, 1000u}) for (long code = 0, total = long(std::pow(ops, depth) + 0.5); code < total; ++code) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { std::string r = "limit " + std::to_string(limit) + ", operations"; long c = code; for (int i = 0; i < depth; ++i, c /= ops) r += " " + std::to_string(c % ops); return r; };
        auto in = std::make_shared<paged_triangle_mesh_file_input_archive>("cache.bin", nullptr);
        paged_triangle_mesh q(in); serialize(*in, q); q.m_max_cache_num_vertices = limit; queue.update(); log.v.clear();
        std::vector<bool> loaded(n); std::vector<size_t> lru(n); for (size_t i = 0; i < n; ++i) lru[i] = i; double thick = 1;
        long c = code;
        for (int i = 0; i < depth; ++i, c /= ops) {
            int op = int(c % ops); std::vector<size_t> want, got, events;
            auto touch = [&](size_t k) { lru.erase(std::find(lru.begin(), lru.end(), k)); lru.insert(lru.begin(), k); };
            auto need = [&](size_t k) {
                if (loaded[k]) return;
                auto sum = [&] { size_t r = 0; for (size_t j = 0; j < n; ++j) if (loaded[j]) r += nv[j]; return r; };
                while (sum() + nv[k] > limit) for (size_t j = n; j--;) if (loaded[lru[j]]) { loaded[lru[j]] = false; events.push_back(lru[j]); break; }
                loaded[k] = true; events.push_back(k);
            };
            if (op < int(n) + 2) {
                AABB box = op < int(n) ? at[op] : op == int(n) ? q.get_aabb() : AABB{{-9, -9, -9}, {-8, -8, -8}};
                if (op < int(n) && op % 2) { auto p0 = box.center() + vector3{0, 5, 0}, p1 = box.center() - vector3{0, 5, 0}; std::set<size_t> u; q.raycast(p0, p1, [&](size_t k, size_t) { if (u.insert(k).second) got.push_back(k); }); }
                else if (op < int(n) && op % 4 == 2) { std::set<size_t> u; q.visit_triangles(box, [&](size_t k, size_t) { if (u.insert(k).second) got.push_back(k); }); }
                else q.visit_submeshes(box, [&](size_t k) { got.push_back(k); });
                // The order among pages of one query is the tree's; the rest follows from it.
                std::set<size_t> gs(got.begin(), got.end());
                VP_CHECK(gs.size() == got.size(), "a page is visited twice");
                if (op < int(n)) VP_CHECK(gs.count(op), "page %d is not visited", op);
                if (op == int(n)) VP_CHECK(gs.size() == n, "%zu of %zu pages are visited", gs.size(), n);
                if (op == int(n) + 1) VP_CHECK(gs.empty(), "a query away from the mesh visits pages");
                for (auto k : got) { need(k); touch(k); }
            } else if (op == int(n) + 2) { q.clear_cache(); loaded.assign(n, false); }
            else { thick = thick == 1 ? 0.5 : 0.25; q.set_thickness(scalar(thick)); }
            for (size_t k = 0; k < n; ++k) {
                VP_CHECK(bool(q.get_submesh(k)) == loaded[k], "page %zu is %s after operation %d", k, loaded[k] ? "not loaded" : "still loaded", i);
                if (loaded[k]) VP_CHECK(q.get_submesh(k)->get_thickness() == scalar(thick) && q.get_submesh(k)->num_vertices() == nv[k], "page %zu has another thickness or content", k);
            }
            VP_CHECK(q.get_thickness() == scalar(thick), "thickness of the paged mesh");
            size_t used = 0; for (size_t k = 0; k < n; ++k) if (loaded[k]) used += nv[k];
            VP_CHECK(q.cache_num_vertices() == used && used <= limit, "%zu vertices in the cache instead of %zu, limit %zu", q.cache_num_vertices(), used, limit);
            queue.update(); VP_CHECK(log.v == events, "%zu page events are reported instead of %zu", log.v.size(), events.size()); log.v.clear();
            vp::transitions();
        }
        vp::states(depth); vp::nontrivial();
    }
}
