// Triangle queries: containment, support features, bounds and clipping of separating axes.
#include "geo.hpp"
#include "edyn/math/triangle.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/util/shape_util.hpp"
using namespace edyn;
using namespace geo;

namespace {
struct tri { D3 v[3]; };
std::vector<tri> triangles() {
    std::vector<tri> r; auto L = lattice({-1, 0.5, 2}, {0, 1}, {-1, 0.5});
    for (size_t i = 0; i < L.size(); ++i) for (size_t j = 0; j < L.size(); ++j) for (size_t k = 0; k < L.size(); ++k) if (i != j && j != k && i != k && (vp::thorough() || (i < j) == (j < k)) && n2(cr(L[j] - L[i], L[k] - L[i])) > 0) r.push_back({{L[i], L[j], L[k]}});
    r.push_back({{{0, 0, 0}, {10, 0.125, 0}, {20, 0, 0.0625}}});
    return r;
}
triangle_vertices TV(const tri &t) { return {V(t.v[0]), V(t.v[1]), V(t.v[2])}; }
std::string str(const tri &t) { return geo::str(t.v[0]) + geo::str(t.v[1]) + geo::str(t.v[2]); }
}

VP_SCENARIO(containment) {
    auto P = lattice({-1.5, -1, 0, 0.5, 1.25, 2}, {-1, 0, 0.5, 1}, {-1, -0.25, 0.5, 1});
    for (auto &t : triangles()) for (int flip = 0; flip < 2; ++flip) {
        if (!vp::begin()) continue;
        D3 n = cr(t.v[1] - t.v[0], t.v[2] - t.v[0]) * (flip ? -1 : 1);
        auto Q = P; for (int i = 0; i < 3; ++i) { Q.push_back(t.v[i]); Q.push_back((t.v[i] + t.v[(i + 1) % 3]) * 0.5); Q.push_back((t.v[i] + t.v[(i + 1) % 3]) * 0.5 + n); }
        Q.push_back((t.v[0] * 2 + t.v[1] + t.v[2]) * 0.25);
        for (auto p : Q) {
            vp::describer() = [&] { return str(t) + " point " + geo::str(p) + (flip ? " normal flipped" : ""); };
            double lo = 1e9; D3 m = flip ? -n : n;
            for (int i = 0; i < 3; ++i) lo = std::min(lo, dt(cr(m, t.v[(i + 1) % 3] - t.v[i]), p - t.v[i]));
            vp::nontrivial(lo >= 0);
            if (lo < 0 && lo > -1e-4) continue;
            VP_CHECK(point_in_triangle(TV(t), V(n), V(p)) == (lo >= 0), "the point is %s the triangle", lo >= 0 ? "in" : "outside");
        }
    }
}

VP_SCENARIO(support) {
    auto D = directions(); for (D3 d : {D3{0.001, 1, 0.002}, D3{1, 0.002, 0}, D3{-0.001, -1, 0.0005}, D3{0, 0.003, -1}, D3{1, 0.25, 0.003}}) D.push_back(unit(d));
    for (auto &t : triangles()) for (auto d : D) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return str(t) + " direction " + geo::str(d); };
        auto v = TV(t); D3 dd = D3(V(d)), ax{0.5, -2, 1};
        double p[3], best = -1e9; for (int i = 0; i < 3; ++i) { p[i] = dt(t.v[i], dd); best = std::max(best, p[i]); }
        D3 s = get_triangle_support_point(v, V(d));
        VP_CHECK((v[0] == V(s) || v[1] == V(s) || v[2] == V(s)) && near(dt(s, dd), best, 1e-6), "support point %s", geo::str(s).c_str());
        VP_CHECK(near(get_triangle_support_projection(v, V(d)), best, 1e-6), "support projection");
        auto e = get_triangle_edges(v); for (int i = 0; i < 3; ++i) VP_CHECK(near(D3(e[i]), t.v[(i + 1) % 3] - t.v[i], 1e-6), "edge %d", i);
        auto b = get_triangle_aabb(v); for (int k = 0; k < 3; ++k) VP_CHECK(double(b.min[k]) == double(std::min(v[0][k], std::min(v[1][k], v[2][k]))) && double(b.max[k]) == double(std::max(v[0][k], std::max(v[1][k], v[2][k]))), "bounding box");
        for (double thr : {0.001, 0.004, 0.05}) {
            triangle_feature f{}; size_t idx = 99; scalar proj = 0;
            get_triangle_support_feature(v, V(ax), V(d), f, idx, proj, scalar(thr));
            VP_CHECK(near(proj, best - dt(ax, dd), 1e-6), "the projection of the support feature is %g instead of %g", double(proj), best - dt(ax, dd));
            auto has = [&](int i) { return f == triangle_feature::face || (f == triangle_feature::vertex ? idx == size_t(i) : idx == size_t(i) || (idx + 1) % 3 == size_t(i)); };
            VP_CHECK(f == triangle_feature::face || idx < 3, "feature index %zu", idx);
            size_t cnt = 0, sure = 0; bool clear = true;
            for (int i = 0; i < 3; ++i) {
                cnt += has(i); sure += best - p[i] < 1e-6;
                if (best - p[i] < 1e-6) VP_CHECK(has(i), "vertex %d is furthest but not in the feature", i);
                if (best - p[i] > 2 * thr + 1e-5) VP_CHECK(!has(i), "vertex %d is in the feature but %g below", i, best - p[i]);
                for (int j = 0; j < i; ++j) clear = clear && (std::abs(p[i] - p[j]) < thr / 2 - 1e-5 || std::abs(p[i] - p[j]) > thr + 1e-5);
            }
            vp::nontrivial(cnt > 1);
            VP_CHECK(get_triangle_feature_num_vertices(f) == cnt && get_triangle_feature_num_edges(f) == (cnt == 3 ? 3 : cnt == 2 ? 1 : 0), "number of vertices or edges of the feature");
            if (clear) for (int i = 0; i < 3; ++i) VP_CHECK(has(i) == (best - p[i] < thr), "vertex %d, %g below, is %s the feature", i, best - p[i], has(i) ? "in" : "not in");
        }
    }
    VP_CHECK(get_triangle_feature_num_vertices(triangle_feature::vertex) == 1 && get_triangle_feature_num_vertices(triangle_feature::edge) == 2 && get_triangle_feature_num_vertices(triangle_feature::face) == 3, "vertices of features");
}

// A triangle with neighbours hinged at every edge by every combination of angles, or none.
VP_SCENARIO(clip_axis) {
    const double none = 9; std::vector<double> ang = {none, -1.2, -0.3, 0.4, 1.0, 2.2}; auto D = directions();
    tri t{{{1, 0, 0}, {0, 0, -1}, {-1, 0, 0.5}}}; D3 n = unit(cr(t.v[1] - t.v[0], t.v[2] - t.v[0]));
    for (double a0 : ang) for (double a1 : ang) for (double a2 : ang) for (auto &q : orientations(0)) {
        double as[3] = {a0, a1, a2}; std::vector<vector3> vs; std::vector<uint32_t> ix = {0, 1, 2};
        for (int i = 0; i < 3; ++i) vs.push_back(V(rot(q, t.v[i])));
        for (int i = 0; i < 3; ++i) if (as[i] != none) { // A face rotated down from the plane by the angle (convex if positive).
            D3 a = t.v[i], b = t.v[(i + 1) % 3], e = unit(b - a), out = cr(e, n); D3 w = (a + b) * 0.5 + out * std::cos(as[i]) - n * std::sin(as[i]);
            ix.insert(ix.end(), {uint32_t((i + 1) % 3), uint32_t(i), uint32_t(vs.size())}); vs.push_back(V(rot(q, w)));
        }
        triangle_mesh m; m.insert_vertices(vs.begin(), vs.end()); m.insert_indices(ix.begin(), ix.end()); m.initialize();
        auto tv = m.get_triangle_vertices(0); auto N = m.get_triangle_normal(0);
        for (auto d0 : D) {
            if (!vp::begin()) continue;
            D3 s = D3(V(d0));
            vp::describer() = [&] { char b[96]; snprintf(b, sizeof b, "neighbours at %g %g %g ", a0, a1, a2); return b + geo::str(q) + " axis " + geo::str(s); };
            D3 en[3], adj[3]; bool cvx[3]; for (int i = 0; i < 3; ++i) { adj[i] = m.get_adjacent_face_normal(0, i); en[i] = cr(D3(tv[(i + 1) % 3]) - D3(tv[i]), adj[i]); cvx[i] = as[i] == none || as[i] > 0; }
            D3 r = clip_triangle_separating_axis(V(s), m, 0, tv, N, triangle_feature::face, 0);
            VP_CHECK(near(r, D3(N), 1e-6), "the axis of a face contact is not the normal");
            auto settle = [&](int e) { return !cvx[e] ? D3(N) : dt(s, en[e]) > 0 ? adj[e] : s; };
            for (int e = 0; e < 3; ++e) {
                if (std::abs(dt(s, en[e])) < 1e-5) continue;
                vp::nontrivial(cvx[e]);
                r = clip_triangle_separating_axis(V(s), m, 0, tv, N, triangle_feature::edge, e);
                VP_CHECK(near(r, settle(e), 1e-6), "edge %d: axis %s instead of %s", e, geo::str(r).c_str(), geo::str(settle(e)).c_str());
            }
            for (int k = 0; k < 3; ++k) {
                int e0 = k, e1 = (k + 2) % 3; double x0 = dt(s, en[e0]), x1 = dt(s, en[e1]);
                if (std::abs(x0 - x1) < 1e-5 || std::abs(x0) < 1e-5 || std::abs(x1) < 1e-5) continue;
                int e = x0 > x1 ? e0 : e1;
                r = clip_triangle_separating_axis(V(s), m, 0, tv, N, triangle_feature::vertex, k);
                VP_CHECK(near(r, settle(e), 1e-6), "vertex %d: axis %s instead of %s", k, geo::str(r).c_str(), geo::str(settle(e)).c_str());
            }
        }
    }
}
