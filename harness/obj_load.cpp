// Wavefront OBJ loading: every sequence of file lines up to a length, against a reference that
// works on the structured lines instead of the text.
#include "vp.hpp"
#include "solids.hpp"
#include "edyn/util/shape_io.hpp"
#include "edyn/shapes/compound_shape.hpp"
#include <fstream>
#include <sstream>
using namespace edyn;
using geo::D3;

struct xform { D3 scale{1, 1, 1}; quaternion orn = quaternion_identity; D3 pos{0, 0, 0}; };
static D3 qrot(const quaternion &q, D3 v) {
    double x = q.x, y = q.y, z = q.z, w = q.w;
    D3 u{x, y, z}, t = geo::cr(u, v) * 2.; return v + t * w + geo::cr(u, t);
}
static D3 apply(const xform &t, D3 v) { v = D3{v.x * t.scale.x, v.y * t.scale.y, v.z * t.scale.z}; return qrot(t.orn, v) + t.pos; }
static vector3 V3(D3 v) { return {scalar(v.x), scalar(v.y), scalar(v.z)}; }
static bool near(const vector3 &a, D3 b, double eps = 1e-5) { return std::abs(a.x - b.x) < eps && std::abs(a.y - b.y) < eps && std::abs(a.z - b.z) < eps; }

struct ref_mesh { std::string name; std::vector<D3> v, c; std::vector<std::vector<uint32_t>> f; };
struct doc {
    std::string text; std::vector<ref_mesh> done; ref_mesh cur; uint32_t offset = 0;
    void flush() { if (!cur.v.empty()) { offset += uint32_t(cur.v.size()); done.push_back(cur); cur = {}; } else cur = {}; }
};
static const int NUM_OPS = 15;
static std::string num(double x, int style) {
    char b[64];
    switch (style) { case 0: snprintf(b, sizeof b, "%g", x); break; case 1: snprintf(b, sizeof b, "%.6f", x); break; default: snprintf(b, sizeof b, "%.4e", x); }
    return b;
}
// Adds line `op` to the document; false when it is not meaningful there.
static bool add(doc &d, int op, const char *eol) {
    static const D3 P[] = {{1, 2, 3}, {-0.5, 0.25, 8}, {0, 0, 0}};
    auto face = [&](std::vector<uint32_t> f, int style) {
        std::string l = "f";
        for (size_t k = 0; k < f.size(); ++k) {
            auto i = std::to_string(f[k] + 1 + d.offset);
            l += " " + i;
            if (style == 1) l += "/" + std::to_string(7 + k); else if (style == 2) l += "/3/" + std::to_string(k + 1); else if (style == 3) l += "//2";
        }
        d.text += l + eol; d.cur.f.push_back(f);
    };
    auto n = uint32_t(d.cur.v.size());
    switch (op) {
    case 0: d.text += "v 1 2 3" + std::string(eol); d.cur.v.push_back(P[0]); return true;
    case 1: d.text += "v " + num(P[1].x, 1) + " " + num(P[1].y, 2) + " " + num(P[1].z, 0) + eol; d.cur.v.push_back(P[1]); return true;
    case 2: d.text += "v 0.0 -0.0 0 0.5 0.25 1.0" + std::string(eol); d.cur.v.push_back(P[2]); d.cur.c.push_back({0.5, 0.25, 1}); return true;
    case 3: d.text += "v 1.0 2.0 3.0 " + std::string(eol); d.cur.v.push_back(P[0]); return true; // trailing space
    case 4: if (n < 3) return false; face({0, 1, 2}, 0); return true;
    case 5: if (n < 3) return false; face({n - 1, 0, n - 2}, 2); return true;
    case 6: if (n < 4) return false; face({0, 1, 2, 3}, 1); return true;
    case 7: if (n < 5) return false; face({4, 3, 0, 1, 2}, 3); return true;
    case 8: d.flush(); d.text += "o Cube" + std::string(eol); d.cur.name = "Cube"; return true;
    case 9: d.flush(); d.text += "o second part.001" + std::string(eol); d.cur.name = "second part.001"; return true;
    case 10: d.text += "# v 9 9 9" + std::string(eol); return true;
    case 11: d.text += eol; return true;
    case 12: d.text += "vn 0 1 0" + std::string(eol); return true;
    case 13: d.text += "vt 0.5 0.5" + std::string(eol) + "usemtl f" + eol + "s 1" + eol; return true;
    case 14: if (n < 6) return false; face({0, 1, 2, 3, 4, 5}, 0); return true;
    }
    return false;
}

static void compare(const doc &d0, const xform &t, bool file) {
    doc d = d0; auto last = d.cur; d.flush();
    // As separate meshes.
    std::vector<obj_mesh> ms; std::vector<vector3> tv, tc; std::vector<uint32_t> ti;
    if (file) {
        { std::ofstream o("mesh.obj"); o << d.text; }
        VP_CHECK(load_meshes_from_obj("mesh.obj", ms, V3(t.pos), t.orn, V3(t.scale)), "an existing file is not loaded");
        VP_CHECK(load_tri_mesh_from_obj("mesh.obj", tv, ti, &tc, V3(t.pos), t.orn, V3(t.scale)), "an existing file is not loaded");
    } else {
        std::stringstream a(d.text), b(d.text);
        load_meshes_from_obj(a, ms, V3(t.pos), t.orn, V3(t.scale));
        load_tri_mesh_from_obj(b, tv, ti, &tc, V3(t.pos), t.orn, V3(t.scale));
    }
    VP_CHECK(ms.size() == d.done.size(), "%zu objects are loaded of %zu", ms.size(), d.done.size());
    std::vector<D3> allv, allc; std::vector<uint32_t> tris; uint32_t off = 0;
    for (size_t i = 0; i < ms.size(); ++i) {
        auto &m = ms[i]; auto &r = d.done[i];
        VP_CHECK(m.name == r.name, "object %zu is named '%s' instead of '%s'", i, m.name.c_str(), r.name.c_str());
        VP_CHECK(m.vertices.size() == r.v.size() && m.colors.size() == r.c.size(), "object %zu has %zu vertices and %zu colors instead of %zu and %zu", i, m.vertices.size(), m.colors.size(), r.v.size(), r.c.size());
        for (size_t k = 0; k < r.v.size(); ++k) VP_CHECK(near(m.vertices[k], apply(t, r.v[k])), "vertex %zu of object %zu is misplaced", k, i);
        for (size_t k = 0; k < r.c.size(); ++k) VP_CHECK(near(m.colors[k], r.c[k]), "color %zu of object %zu is wrong", k, i);
        VP_CHECK(m.faces.size() == 2 * r.f.size(), "object %zu has %zu faces instead of %zu", i, m.faces.size() / 2, r.f.size());
        size_t total = 0;
        for (size_t k = 0; k < r.f.size(); ++k) {
            VP_CHECK(m.faces[2 * k + 1] == r.f[k].size() && m.faces[2 * k] + r.f[k].size() <= m.indices.size(), "face %zu of object %zu has a wrong extent", k, i);
            for (size_t j = 0; j < r.f[k].size(); ++j) VP_CHECK(m.indices[m.faces[2 * k] + j] == r.f[k][j], "face %zu of object %zu refers to other vertices", k, i);
            total += r.f[k].size();
            for (size_t j = 1; j + 1 < r.f[k].size(); ++j) { tris.push_back(r.f[k][0] + off); tris.push_back(r.f[k][j] + off); tris.push_back(r.f[k][j + 1] + off); }
        }
        VP_CHECK(m.indices.size() == total, "object %zu has surplus indices", i);
        for (auto x : r.v) allv.push_back(x);
        for (auto x : r.c) allc.push_back(x);
        off += uint32_t(r.v.size());
    }
    // As a single triangle mesh.
    VP_CHECK(tv.size() == allv.size() && tc.size() == allc.size(), "the triangle mesh has %zu vertices and %zu colors instead of %zu and %zu", tv.size(), tc.size(), allv.size(), allc.size());
    for (size_t k = 0; k < allv.size(); ++k) VP_CHECK(near(tv[k], apply(t, allv[k])), "vertex %zu of the triangle mesh is misplaced", k);
    for (size_t k = 0; k < allc.size(); ++k) VP_CHECK(near(tc[k], allc[k]), "color %zu of the triangle mesh is wrong", k);
    VP_CHECK(ti == tris, "faces are not triangulated into a fan each (%zu indices instead of %zu)", ti.size(), tris.size());
    // Colors are optional.
    std::stringstream c(d.text); std::vector<vector3> v2; std::vector<uint32_t> i2;
    load_tri_mesh_from_obj(c, v2, i2, nullptr, V3(t.pos), t.orn, V3(t.scale));
    VP_CHECK(v2.size() == tv.size() && i2 == ti, "the triangle mesh depends on whether colors are requested");
    vp::states(); vp::nontrivial();
}

static std::vector<xform> xforms() {
    std::vector<xform> r(1);
    auto q = normalize(quaternion{scalar(0.3), scalar(-0.2), scalar(0.5), scalar(0.7)});
    auto h = scalar(std::sqrt(0.5)); quaternion z{0, 0, h, h};
    xform t; t.pos = {10, -4, 0.5}; r.push_back(t);
    t = {}; t.orn = z; r.push_back(t);
    t = {}; t.scale = {2, 3, 0.5}; r.push_back(t);
    t = {}; t.scale = {2, 3, 0.5}; t.orn = q; t.pos = {1, 2, -3}; r.push_back(t);
    t = {}; t.scale = {1, 1, 4}; t.pos = {0, 0, 1}; r.push_back(t);
    t = {}; t.orn = z; t.pos = {0, 7, 0}; r.push_back(t);
    t = {}; t.scale = {0.1, 0.1, 0.1}; t.orn = z; r.push_back(t);
    return r;
}
static void rec(const doc &d, int depth, const char *eol, const xform &t, std::string &ops) {
    if (vp::begin()) { vp::describe("file: %s", d.text.c_str()); vp::transitions(); compare(d, t, false); }
    if (!depth) return;
    for (int op = 0; op < NUM_OPS; ++op) { doc n = d; if (add(n, op, eol)) rec(n, depth - 1, eol, t, ops); }
}
// From an empty file and from files that already have vertices or a complete object.
VP_SCENARIO(obj_line_sequences) {
    auto ts = xforms(); std::string ops;
    for (int start = 0; start < 4; ++start) {
        doc d;
        if (start == 1) for (int op : {0, 1, 2}) add(d, op, "\n");
        if (start == 2) for (int op : {9, 0, 1, 2, 0, 1, 2}) add(d, op, "\n");
        if (start == 3) for (int op : {8, 0, 1, 2, 4, 9, 0, 1, 2, 3, 1}) add(d, op, "\n");
        rec(d, vp::thorough() ? 5 : 4, "\n", ts[start == 2 ? 4 : 0], ops);
    }
}
VP_SCENARIO(obj_transforms) {
    auto ts = xforms(); std::string ops;
    for (auto &t : ts) for (const char *eol : {"\n"}) { doc d; for (int op : {8, 0, 1, 2, 3}) add(d, op, eol); rec(d, 3, eol, t, ops); }
}
VP_SCENARIO(obj_files) {
    auto ts = xforms();
    for (auto &t : ts) for (int n = 0; n < NUM_OPS; ++n) for (int end = 0; end < 2; ++end) {
        doc d; for (int op : {8, 0, 1, 2, 3, 0, 1, 4}) add(d, op, "\n");
        add(d, n, end ? "" : "\n");
        if (!vp::begin()) continue;
        vp::describe("file: %s", d.text.c_str());
        compare(d, t, true);
        std::vector<obj_mesh> ms; std::vector<vector3> v; std::vector<uint32_t> i;
        VP_CHECK(!load_meshes_from_obj("missing.obj", ms) && ms.empty() && !load_tri_mesh_from_obj("missing.obj", v, i) && v.empty() && i.empty(), "a missing file is reported as loaded");
    }
}
// Convex polyhedrons and compounds: every combination of up to three solids.
static std::string solid_text(const std::vector<const geo::solid *> &ss, const std::vector<D3> &at) {
    std::string s; uint32_t off = 0; char b[128];
    for (size_t k = 0; k < ss.size(); ++k) {
        s += "o part" + std::to_string(k) + "\n";
        for (auto v : ss[k]->v) { snprintf(b, sizeof b, "v %.9g %.9g %.9g\n", v.x + at[k].x, v.y + at[k].y, v.z + at[k].z); s += b; }
        for (auto &f : ss[k]->f) { s += "f"; for (auto i : f) s += " " + std::to_string(i + 1 + off); s += "\n"; }
        off += uint32_t(ss[k]->v.size());
    }
    return s;
}
VP_SCENARIO(obj_polyhedrons) {
    auto so = geo::solids(); auto ts = xforms();
    std::vector<std::vector<int>> combos;
    for (int a = 0; a < int(so.size()); ++a) { combos.push_back({a}); for (int b = 0; b < int(so.size()); ++b) { combos.push_back({a, b}); if (b < 4) combos.push_back({b, a, 3}); } }
    for (auto &t : ts) for (auto &c : combos) {
        if (!vp::begin()) continue;
        std::vector<const geo::solid *> ss; std::vector<D3> at; std::string n;
        for (size_t k = 0; k < c.size(); ++k) { ss.push_back(&so[c[k]]); at.push_back({3. * k, -1. * k, 0.5}); n += std::string(so[c[k]].name) + " "; }
        vp::describe("solids %sscaled %g,%g,%g", n.c_str(), t.scale.x, t.scale.y, t.scale.z);
        auto text = solid_text(ss, at);
        std::stringstream a(text), b(text);
        auto ps = load_convex_polyhedrons_from_obj(a, V3(t.pos), t.orn, V3(t.scale));
        auto comp = load_compound_shape_from_obj(b, V3(t.pos), t.orn, V3(t.scale));
        VP_CHECK(ps.size() == ss.size() && comp.nodes.size() == ss.size(), "%zu polyhedrons and %zu nodes are loaded of %zu", ps.size(), comp.nodes.size(), ss.size());
        for (size_t k = 0; k < ss.size(); ++k) {
            std::vector<D3> v; for (auto x : ss[k]->v) v.push_back(apply(t, x + at[k]));
            double vol; D3 cen; geo::moments(*ss[k], v, vol, cen);
            double size = 0; for (auto x : v) size = std::max(size, geo::nm(x)); double eps = 2e-5 * (1 + size);
            auto *node = std::get_if<polyhedron_shape>(&comp.nodes[k].shape_var);
            VP_CHECK(node && comp.nodes[k].orientation == quaternion_identity, "node %zu of the compound is not an unrotated polyhedron", k);
            vector3 pos[2] = {ps[k].center, comp.nodes[k].position}; const polyhedron_shape *sh[2] = {&ps[k].shape, node};
            for (int w = 0; w < 2; ++w) {
                auto &m = *sh[w]->mesh;
                VP_CHECK(near(pos[w], cen, eps), "the centre of part %zu is off its centroid", k);
                VP_CHECK(m.vertices.size() == v.size() && m.num_faces() == ss[k]->f.size(), "part %zu has other vertices or faces", k);
                for (size_t i = 0; i < v.size(); ++i) VP_CHECK(near(m.vertices[i] + pos[w], v[i], eps), "vertex %zu of part %zu is misplaced", i, k);
                for (size_t f = 0; f < ss[k]->f.size(); ++f) {
                    VP_CHECK(m.face_vertex_count(f) == ss[k]->f[f].size(), "face %zu of part %zu has another number of vertices", f, k);
                    for (size_t j = 0; j < ss[k]->f[f].size(); ++j) VP_CHECK(int(m.face_vertex_index(f, j)) == ss[k]->f[f][j], "face %zu of part %zu refers to other vertices", f, k);
                    D3 fn = geo::cr(v[ss[k]->f[f][1]] - v[ss[k]->f[f][0]], v[ss[k]->f[f][2]] - v[ss[k]->f[f][1]]); fn = fn / geo::nm(fn);
                    VP_CHECK(near(m.normals[f], fn, 1e-3), "normal %zu of part %zu is wrong", f, k);
                }
            }
            D3 lo{1e9, 1e9, 1e9}, hi{-1e9, -1e9, -1e9};
            for (auto x : v) { lo = {std::min(lo.x, x.x), std::min(lo.y, x.y), std::min(lo.z, x.z)}; hi = {std::max(hi.x, x.x), std::max(hi.y, x.y), std::max(hi.z, x.z)}; }
            VP_CHECK(near(comp.nodes[k].aabb.min, lo, eps) && near(comp.nodes[k].aabb.max, hi, eps), "the bounding box of node %zu does not enclose it tightly", k);
        }
        vp::states(); vp::nontrivial();
    }
}
