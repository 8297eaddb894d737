// Vertices, edges and faces of a box: all indices, sizes, placements and directions.
#include "geo.hpp"
#include "edyn/shapes/box_shape.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/util/shape_util.hpp"
#include <set>
using namespace edyn;
using namespace geo;

namespace {
std::vector<D3> sizes() { auto r = lattice(vp::thorough() ? std::vector<double>{0.05, 0.5, 1, 3} : std::vector<double>{0.25, 1, 2.5}); return r; }
std::vector<D3> places() { return {{0, 0, 0}, {3, -1, 0.5}, {-20, 7, 11}}; }
bool on(double a, double b) { return std::abs(a - b) < 1e-6; }
}

VP_SCENARIO(tables) {
    for (auto he : sizes()) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "half extents " + geo::str(he); };
        vp::nontrivial(true);
        box_shape b{V(he)};
        VP_CHECK(get_box_num_features(box_feature::vertex) == 8 && get_box_num_features(box_feature::edge) == 12 && get_box_num_features(box_feature::face) == 6, "number of features");
        VP_CHECK(get_box_feature_num_vertices(box_feature::vertex) == 1 && get_box_feature_num_vertices(box_feature::edge) == 2 && get_box_feature_num_vertices(box_feature::face) == 4, "vertices per feature");
        D3 v[8];
        for (size_t i = 0; i < 8; ++i) { v[i] = b.get_vertex(i); for (int k = 0; k < 3; ++k) VP_CHECK(on(std::abs(v[i][k]), he[k]), "vertex %zu is not a corner", i); for (size_t j = 0; j < i; ++j) VP_CHECK(nm(v[i] - v[j]) > 1e-3, "vertices %zu and %zu coincide", j, i); }
        auto vid = [&](D3 p) { size_t r = 8; for (size_t i = 0; i < 8; ++i) if (nm(p - v[i]) < 1e-5) r = i; return r; };
        std::set<std::pair<size_t, size_t>> seen;
        for (size_t e = 0; e < 12; ++e) {
            auto ev = b.get_edge(e); auto i0 = vid(ev[0]), i1 = vid(ev[1]);
            VP_CHECK(i0 < 8 && i1 < 8 && i0 != i1, "edge %zu has no corners", e);
            int diff = 0; for (int k = 0; k < 3; ++k) diff += std::abs(v[i0][k] - v[i1][k]) > 1e-3;
            VP_CHECK(diff == 1, "edge %zu is not an edge of the box", e);
            VP_CHECK(seen.insert(std::minmax(i0, i1)).second, "edge %zu appears twice", e);
            VP_CHECK(b.get_edge_index(i0, i1) == e && b.get_edge_index(i1, i0) == e, "get_edge_index does not find edge %zu", e);
            VP_CHECK(box_shape::edge_indices[e * 2] == i0 && box_shape::edge_indices[e * 2 + 1] == i1, "edge_indices");
            auto f = b.get_edge_face_indices(e); auto n = b.get_edge_face_normals(e);
            VP_CHECK(f[0] < 6 && f[1] < 6 && f[0] != f[1], "faces of edge %zu", e);
            for (int k = 0; k < 2; ++k) {
                VP_CHECK(near(D3(n[k]), D3(b.get_face_normal(f[k])), 1e-6), "normals of the faces of edge %zu", e);
                for (D3 p : {v[i0], v[i1]}) VP_CHECK(on(dt(p, D3(n[k])), std::abs(dt(he, D3(n[k])))), "edge %zu does not lie on its face %zu", e, f[k]);
            }
            VP_CHECK(near(cr(D3(n[0]), D3(n[1])), unit(v[i1] - v[i0]), 1e-6), "the normals of edge %zu do not turn along it", e);
        }
        std::set<int> axes;
        for (size_t f = 0; f < 6; ++f) {
            D3 n = b.get_face_normal(f); VP_CHECK(near(nm(n), 1, 1e-6), "normal of face %zu", f);
            int code = 0; for (int k = 0; k < 3; ++k) if (std::abs(n[k]) > 0.5) code = (k + 1) * (n[k] > 0 ? 1 : -1);
            VP_CHECK(axes.insert(code).second && on(n2(n), 1), "face %zu appears twice", f);
            auto fv = b.get_face(f); std::set<size_t> ids;
            for (size_t i = 0; i < 4; ++i) {
                auto id = vid(fv[i]); VP_CHECK(id < 8 && ids.insert(id).second, "face %zu repeats a vertex", f);
                VP_CHECK(on(dt(v[id], n), std::abs(dt(he, n))), "vertex %zu of face %zu is not on it", i, f);
                VP_CHECK(b.get_vertex_index_from_face(f, i) == id && box_shape::face_indices[f * 4 + i] == id, "vertex index %zu of face %zu", i, f);
                D3 e0 = D3(fv[(i + 1) % 4]) - D3(fv[i]), e1 = D3(fv[(i + 2) % 4]) - D3(fv[(i + 1) % 4]);
                VP_CHECK(near(unit(cr(e0, e1)), n, 1e-6), "face %zu is not counter-clockwise", f);
                auto e = b.get_face_edge_index(f, i); VP_CHECK(e < 12 && e == b.get_edge_index(id, b.get_vertex_index_from_face(f, (i + 1) % 4)), "edge %zu of face %zu is %zu", i, f, e);
            }
        }
    }
}

VP_SCENARIO(world_space) {
    for (auto he : sizes()) for (auto pos : places()) for (auto &q : orientations(1)) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "half extents " + geo::str(he) + " at " + geo::str(pos) + geo::str(q); };
        vp::nontrivial(nm(pos) > 0);
        box_shape b{V(he)};
        const double T = 3e-6;
        for (size_t i = 0; i < 8; ++i) VP_CHECK(near(D3(b.get_vertex(i, V(pos), q)), to_world(D3(b.get_vertex(i)), pos, q), T), "vertex %zu in world space", i);
        for (size_t i = 0; i < 12; ++i) {
            auto l = b.get_edge(i), w = b.get_edge(i, V(pos), q); auto n = b.get_edge_face_normals(i), m = b.get_edge_face_normals(i, q);
            for (int k = 0; k < 2; ++k) VP_CHECK(near(D3(w[k]), to_world(D3(l[k]), pos, q), T) && near(D3(m[k]), rot(q, D3(n[k])), T), "edge %zu in world space", i);
        }
        for (size_t f = 0; f < 6; ++f) {
            auto l = b.get_face(f), w = b.get_face(f, V(pos), q); D3 c;
            for (int k = 0; k < 4; ++k) { VP_CHECK(near(D3(w[k]), to_world(D3(l[k]), pos, q), T), "face %zu in world space", f); c = c + D3(w[k]) * 0.25; }
            D3 n = rot(q, D3(b.get_face_normal(f)));
            VP_CHECK(near(D3(b.get_face_normal(f, q)), n, T), "face normal %zu in world space", f);
            VP_CHECK(near(D3(b.get_face_center(f, V(pos), q)), c, T), "center of face %zu", f);
            auto m = b.get_face_basis(f, q); D3 x = m.column(0), y = m.column(1), z = m.column(2);
            VP_CHECK(near(y, n, T) && near(cr(x, y), z, T) && on(n2(x), 1 + (n2(x) - 1)) && near(n2(x), 1, T) && near(dt(x, y), 0, T), "basis of face %zu", f);
            auto h = b.get_face_half_extents(f);
            // The corners of the face are at the half extents in the basis.
            for (int k = 0; k < 4; ++k) { D3 d = D3(w[k]) - c; VP_CHECK(near(std::abs(dt(d, x)), h.x, 3 * T * (1 + nm(pos))) && near(std::abs(dt(d, z)), h.y, 3 * T * (1 + nm(pos))), "half extents of face %zu", f); }
        }
    }
}

VP_SCENARIO(support) {
    auto dirs = directions(); for (D3 d : {D3{1, 0.01, 0}, D3{1, 0.01, 0.02}, D3{-0.02, 1, 0.3}, D3{0.001, -0.002, -1}, D3{0.2, -1, 0}, D3{0, 0.005, 1}, D3{1, 1, 0.01}}) for (double s : {1., -1.}) dirs.push_back(unit(d) * s);
    for (auto he : sizes()) for (auto d : dirs) for (auto &q : orientations(1)) {
        if (!vp::begin()) continue;
        D3 pos{3, -1, 0.5}, axp{-1, 2, 0.25};
        vp::describer() = [&] { return "half extents " + geo::str(he) + " direction " + geo::str(d) + geo::str(q); };
        vp::nontrivial(std::min(std::abs(d.x), std::min(std::abs(d.y), std::abs(d.z))) > 0);
        box_shape b{V(he)};
        auto reach = [&](D3 l) { return std::abs(l.x) * he.x + std::abs(l.y) * he.y + std::abs(l.z) * he.z; };
        auto corner = [&](D3 p) { return near(std::abs(p.x), he.x, 5e-6) && near(std::abs(p.y), he.y, 5e-6) && near(std::abs(p.z), he.z, 5e-6); };
        D3 ld = unrot(q, d); const double T = 1e-5;
        D3 s0 = b.support_point(V(d)), s1 = b.support_point(q, V(d)), s2 = b.support_point(V(pos), q, V(d));
        VP_CHECK(corner(s0) && near(dt(s0, d), reach(d), T), "support point %s", geo::str(s0).c_str());
        VP_CHECK(corner(unrot(q, s1)) && near(dt(s1, d), reach(ld), T), "rotated support point %s", geo::str(s1).c_str());
        VP_CHECK(corner(to_obj(s2, pos, q)) && near(dt(s2 - pos, d), reach(ld), T), "support point in world space %s", geo::str(s2).c_str());
        VP_CHECK(near(b.support_projection(V(pos), q, V(d)), dt(pos, d) + reach(ld), T), "support projection");
        auto f = b.support_face_index(V(d)); VP_CHECK(f < 6, "face index"); double m = std::max(std::abs(d.x), std::max(std::abs(d.y), std::abs(d.z)));
        VP_CHECK(near(dt(D3(b.get_face_normal(f)), d), m, 1e-6), "support face %zu", f);
        for (double thr : {0.001, 0.004, 0.05}) for (int mode = 0; mode < 3; ++mode) {
            box_feature ft = box_feature(7); size_t fi = 99;   // whatever they hold before is overwritten
             scalar proj = 0; D3 l = mode ? ld : d; double off = 0;
            if (mode == 0) b.support_feature(V(d), ft, fi, proj, scalar(thr));
            if (mode == 1) { b.support_feature(V(pos), q, V(axp), V(d), ft, fi, proj, scalar(thr)); off = dt(pos - axp, d); }
            if (mode == 2) { b.support_feature(V(pos), q, V(d), ft, fi, scalar(thr)); proj = scalar(reach(l)); }
            VP_CHECK(near(proj, reach(l) + off, T), "support feature at %g instead of %g", double(proj), reach(l) + off);
            VP_CHECK(ft == box_feature::vertex || ft == box_feature::edge || ft == box_feature::face, "the feature type is not set");
            VP_CHECK(fi < get_box_num_features(ft), "feature index %zu", fi);
            std::vector<size_t> ids;
            if (ft == box_feature::vertex) ids = {fi};
            if (ft == box_feature::edge) ids = {box_shape::edge_indices[fi * 2], box_shape::edge_indices[fi * 2 + 1]};
            if (ft == box_feature::face) for (size_t i = 0; i < 4; ++i) ids.push_back(box_shape::face_indices[fi * 4 + i]);
            double hi = -1e9, lo = 1e9; for (auto i : ids) { double p = dt(D3(b.get_vertex(i)), l); hi = std::max(hi, p); lo = std::min(lo, p); }
            VP_CHECK(near(hi, reach(l), T), "the support feature does not contain the furthest vertex");
            VP_CHECK(lo > reach(l) - thr - T, "the support feature contains a vertex %g below the furthest", reach(l) - lo);
            // The best pair or face of vertices within the threshold, on the face that faces the direction.
            int ma = 0; for (int k = 1; k < 3; ++k) if (std::abs(l[k]) > std::abs(l[ma]) + 1e-6) ma = k;
            bool tie = false; for (int k = 0; k < 3; ++k) tie = tie || (k != ma && std::abs(std::abs(l[k]) - std::abs(l[ma])) < 1e-5);
            int a = (ma + 1) % 3, c = (ma + 2) % 3; double da = 2 * he[a] * std::abs(l[a]), dc = 2 * he[c] * std::abs(l[c]);
            if (tie || std::abs(da - thr) < T || std::abs(dc - thr) < T || std::abs(da + dc - thr) < T) continue;
            size_t want = da + dc < thr ? 4 : (da < thr || dc < thr) ? 2 : 1;
            VP_CHECK(ids.size() == want, "a feature of %zu vertices instead of %zu", ids.size(), want);
            if (want == 2 && std::abs(da - dc) > T) { D3 e = D3(b.get_vertex(ids[0])) - D3(b.get_vertex(ids[1])); VP_CHECK(std::abs(e[da < dc ? a : c]) > 1e-3, "not the edge of the two furthest vertices"); }
        }
    }
}

VP_SCENARIO(closest_feature_on_face) {
    for (auto he : sizes()) for (double tol : {0.0005, 0.01, 0.04}) for (size_t f = 0; f < 6; ++f) {
        box_shape b{V(he)}; D3 n = b.get_face_normal(f); int k = std::abs(n.x) > 0.5 ? 0 : std::abs(n.y) > 0.5 ? 1 : 2, a = (k + 1) % 3, c = (k + 2) % 3;
        for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) {
            if (!vp::begin()) continue;
            auto at = [&](int s, double h) { double t[] = {-h, -h + tol * 0.5, -h + tol * 1.5, -h * 0.4, 0, h * 0.3, h - tol * 1.5, h - tol * 0.5, h}; return t[s]; };
            D3 p; p[k] = n[k] * he[k]; p[a] = at(i, he[a]); p[c] = at(j, he[c]);
            vp::describer() = [&] { return "half extents " + geo::str(he) + " face " + std::to_string(f) + " point " + geo::str(p); };
            bool ea = he[a] - std::abs(p[a]) < tol, ec = he[c] - std::abs(p[c]) < tol; vp::nontrivial(ea || ec);
            auto r = b.get_closest_feature_on_face(f, V(p), scalar(tol));
            auto want = ea && ec ? box_feature::vertex : ea || ec ? box_feature::edge : box_feature::face;
            VP_CHECK(r.first == want, "feature type %d instead of %d", int(r.first), int(want));
            if (want == box_feature::face) VP_CHECK(r.second == f, "face %zu", r.second);
            if (want == box_feature::vertex) { VP_CHECK(r.second < 8, "vertex %zu", r.second); D3 v = b.get_vertex(r.second); VP_CHECK(std::abs(v[a] - p[a]) <= tol && std::abs(v[c] - p[c]) <= tol && on(v[k], p[k]), "vertex %zu is not next to the point", r.second); }
            if (want == box_feature::edge) { VP_CHECK(r.second < 12, "edge %zu", r.second); auto e = b.get_edge(r.second); int m = ea ? a : c; for (D3 v : {D3(e[0]), D3(e[1])}) VP_CHECK(std::abs(v[m] - p[m]) <= tol && on(v[k], p[k]), "edge %zu is not next to the point", r.second); }
        }
    }
}
