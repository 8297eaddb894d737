// Support points and projections of cylinders, capsules and polyhedra; support features of cylinders.
#include "geo.hpp"
#include "edyn/shapes/cylinder_shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
#include "edyn/util/shape_util.hpp"
#include <set>
using namespace edyn;
using namespace geo;

namespace {
std::vector<D3> dirs() {
    auto r = directions();
    for (D3 d : {D3{1, 0.0001, 0}, D3{1e-5, 1, 0}, D3{0, 3e-4, -1}, D3{0.001, -0.002, -1}, D3{1, 1, 0.0001}, D3{-0.0002, 0.7, 0.7}, D3{0.01, 0.02, 1}}) r.push_back(unit(d));
    if (vp::thorough()) for (D3 d : lattice({-1, -0.3, 0.02, 0.6, 1})) r.push_back(unit(d));
    return r;
}
struct poly { const char *name; std::vector<D3> v; std::vector<std::vector<int>> f; };
// Convex polyhedra by their faces.
std::vector<poly> polyhedra() {
    std::vector<poly> r;
    r.push_back({"tetrahedron", {{1, 1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, -1, -1}}, {{0, 1, 2}, {0, 3, 1}, {0, 2, 3}, {1, 3, 2}}});
    r.push_back({"octahedron", {{1, 0, 0}, {-1, 0, 0}, {0, 2, 0}, {0, -2, 0}, {0, 0, 0.5}, {0, 0, -0.5}}, {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}}});
    poly box{"box", {}, {{0, 1, 3, 2}, {4, 6, 7, 5}, {0, 4, 5, 1}, {2, 3, 7, 6}, {0, 2, 6, 4}, {1, 5, 7, 3}}}; for (int i = 0; i < 8; ++i) box.v.push_back({i & 4 ? 1. : -1., i & 2 ? 0.5 : -0.5, i & 1 ? 2. : -2.}); r.push_back(box);
    for (int n : {3, 5, 8, 16}) { poly p{"prism", {}, {}}; std::vector<int> top, bot; for (int i = 0; i < n; ++i) { double a = 2 * PI * i / n; p.v.push_back({std::cos(a), -0.7, std::sin(a)}); p.v.push_back({std::cos(a), 0.7, std::sin(a)}); bot.push_back(2 * i); top.push_back(2 * (n - 1 - i) + 1); } p.f = {top, bot}; for (int i = 0; i < n; ++i) { int j = (i + 1) % n; p.f.push_back({2 * i, 2 * i + 1, 2 * j + 1, 2 * j}); } r.push_back(p); }
    for (int n : {4, 7}) { poly p{"bipyramid", {{0, 3, 0.2}, {0, -1, 0}}, {}}; for (int i = 0; i < n; ++i) { double a = 2 * PI * i / n; p.v.push_back({2 * std::cos(a), 0, std::sin(a)}); } for (int i = 0; i < n; ++i) { int a = 2 + i, b = 2 + (i + 1) % n; p.f.push_back({a, 0, b}); p.f.push_back({b, 1, a}); } r.push_back(p); }
    return r;
}
}

VP_SCENARIO(cylinders) {
    for (double rad : {0.05, 0.5, 2.}) for (double hl : {0.1, 1., 3.}) for (int ax = 0; ax < 3; ++ax) for (auto &q : orientations(1)) for (auto d : dirs()) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { char b[64]; snprintf(b, sizeof b, "radius %g half length %g axis %d ", rad, hl, ax); return b + geo::str(q) + " direction " + geo::str(d); };
        D3 pos{3, -1, 0.5}; auto A = coordinate_axis(ax); cylinder_shape c{scalar(rad), scalar(hl), A};
        D3 a = axis_dir(ax); D3 D = D3(V(d));
        auto reach = [&](D3 l) { double t = dt(l, a); return std::abs(t) * hl + std::sqrt(std::max(0., n2(l) - t * t)) * rad; };
        auto onit = [&](D3 p) { double t = dt(p, a); return near(std::abs(t), hl, 1e-5) && near(nm(p - a * t), rad, 1e-5); };
        D3 ld = unrot(q, D); vp::nontrivial(std::abs(dt(ld, a)) < 0.99);
        const double T = 2e-5; // Directions within the epsilon of the axis may use any point of the cap border.
        double slack = rad * 7e-4;
        auto good = [&](D3 p, D3 dir, double want) { double got = dt(p, dir); double t = dt(dir, a); double pl = std::sqrt(std::max(0., n2(dir) - t * t)); double s = pl < 4e-4 ? slack : 0; return near(got, want, T) || (got < want && got > want - s - T); };
        D3 s0 = cylinder_support_point(scalar(rad), scalar(hl), A, V(d));
        VP_CHECK(onit(s0) && good(s0, D, reach(D)), "support point %s", geo::str(s0).c_str());
        D3 s1 = unrot(q, D3(cylinder_support_point(scalar(rad), scalar(hl), A, q, V(d))));
        VP_CHECK(onit(s1) && good(s1, ld, reach(ld)), "rotated support point %s", geo::str(s1).c_str());
        D3 s2 = to_obj(D3(cylinder_support_point(scalar(rad), scalar(hl), A, V(pos), q, V(d))), pos, q), s3 = to_obj(D3(c.support_point(V(pos), q, V(d))), pos, q);
        VP_CHECK(onit(s2) && good(s2, ld, reach(ld)) && near(s2, s3, T), "support point in world space %s", geo::str(s2).c_str());
        double p = cylinder_support_projection(scalar(rad), scalar(hl), A, V(pos), q, V(d)), p2 = c.support_projection(V(pos), q, V(d)), want = dt(pos, D) + reach(ld);
        VP_CHECK(near(p, p2, 1e-6) && p < want + 3 * T && p > want - 3 * T - slack, "support projection %g instead of %g", p, want);
        auto vs = c.get_vertices(V(pos), q);
        VP_CHECK(near(D3(vs[0]), pos + rot(q, a) * hl, T) && near(D3(vs[1]), pos - rot(q, a) * hl, T), "centers of the caps");
        for (double thr : {0.001, 0.004, 0.05}) for (int mode = 0; mode < 2; ++mode) {
            cylinder_feature f{}; size_t idx = 99; D3 l = mode ? ld : D;
            if (mode) c.support_feature(V(pos), q, V(d), f, idx, scalar(thr)); else c.support_feature(V(d), f, idx, scalar(thr));
            double t = dt(l, a), cap = 2 * rad * std::sqrt(std::max(0., n2(l) - t * t)), side = 2 * hl * std::abs(t);
            if (std::abs(cap - thr) < T || std::abs(side - thr) < T) continue;
            auto wf = cap < thr ? cylinder_feature::face : side < thr ? cylinder_feature::side_edge : cylinder_feature::cap_edge;
            VP_CHECK(f == wf, "support feature %d instead of %d", int(f), int(wf));
            if (wf != cylinder_feature::side_edge && std::abs(t) > T) VP_CHECK(idx == (t > 0 ? 0u : 1u), "support feature on cap %zu", idx);
        }
    }
}

VP_SCENARIO(capsules) {
    for (double rad : {0.05, 0.5, 2.}) for (double hl : {0.1, 1., 3.}) for (int ax = 0; ax < 3; ++ax) for (auto &q : orientations(1)) for (auto d : dirs()) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { char b[64]; snprintf(b, sizeof b, "radius %g half length %g axis %d ", rad, hl, ax); return b + geo::str(q) + " direction " + geo::str(d); };
        D3 pos{3, -1, 0.5}; capsule_shape c{scalar(rad), scalar(hl), coordinate_axis(ax)};
        D3 w = rot(q, axis_dir(ax)); vp::nontrivial(std::abs(dt(w, d)) > 1e-3);
        auto vs = c.get_vertices(V(pos), q);
        VP_CHECK(near(D3(vs[0]), pos + w * hl, 5e-6) && near(D3(vs[1]), pos - w * hl, 5e-6), "ends of the capsule");
        double want = dt(pos, d) + std::abs(dt(w, d)) * hl + rad;
        VP_CHECK(near(capsule_support_projection(vs, scalar(rad), V(d)), want, 1e-5) && near(capsule_support_projection(vs[1], vs[0], scalar(rad), V(d)), want, 1e-5), "support projection");
    }
}

// Every vertex order: the search has to reach the furthest vertex from every start.
VP_SCENARIO(polyhedron_hill_climb) {
    for (auto &p : polyhedra()) for (size_t start = 0; start < p.v.size(); ++start) for (int rev = 0; rev < 2; ++rev) for (auto &q : orientations(1)) {
        size_t n = p.v.size();
        std::vector<size_t> map(n); for (size_t i = 0; i < n; ++i) map[i] = rev ? (start + n - i) % n : (start + i) % n; // New index to old.
        std::vector<size_t> inv(n); for (size_t i = 0; i < n; ++i) inv[map[i]] = i;
        std::vector<std::set<uint32_t>> nb(n);
        for (auto &f : p.f) for (size_t i = 0; i < f.size(); ++i) { auto a = inv[f[i]], b = inv[f[(i + 1) % f.size()]]; nb[a].insert(uint32_t(b)); nb[b].insert(uint32_t(a)); }
        std::vector<vector3> vs; std::vector<uint32_t> st, ni;
        for (size_t i = 0; i < n; ++i) { vs.push_back(V(rot(q, p.v[map[i]]))); st.push_back(uint32_t(ni.size())); if (rev) ni.insert(ni.end(), nb[i].rbegin(), nb[i].rend()); else ni.insert(ni.end(), nb[i].begin(), nb[i].end()); }
        st.push_back(uint32_t(ni.size()));
        for (auto d : dirs()) {
            if (!vp::begin()) continue;
            vp::describer() = [&] { return std::string(p.name) + " of " + std::to_string(n) + " vertices from " + std::to_string(start) + geo::str(q) + " direction " + geo::str(d); };
            double best = -1e9; for (auto &v : vs) best = std::max(best, dt(D3(v), d));
            double got = polyhedron_support_projection(vs, st, ni, V(d));
            vp::nontrivial(dt(D3(vs[0]), d) < best - 1e-3);
            VP_CHECK(near(got, best, 1e-5), "support projection %g instead of %g", got, best);
        }
    }
}
