// Intersection tests against closed forms in double precision. Positions within a small
// band around a boundary may be decided either way, except where every input is exact.
#include "geo.hpp"
#include "edyn/comp/aabb.hpp"
#include "edyn/math/geom.hpp"
using namespace edyn;
using namespace geo;

namespace {
struct P2 { double x, y; };
vector2 V2(P2 p) { return {scalar(p.x), scalar(p.y)}; }
std::string str(P2 p) { char b[64]; snprintf(b, sizeof b, "(%g, %g)", p.x, p.y); return b; }
std::vector<P2> grid(std::vector<double> v) { std::vector<P2> r; for (double x : v) for (double y : v) r.push_back({x, y}); return r; }
double perp(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
P2 sub(P2 a, P2 b) { return {a.x - b.x, a.y - b.y}; }
P2 along(P2 a, P2 b, double s) { return {a.x + (b.x - a.x) * s, a.y + (b.y - a.y) * s}; }
double dist(P2 a, P2 b) { return std::hypot(a.x - b.x, a.y - b.y); }
}

VP_SCENARIO(segments_2d) {
    auto G = grid(vp::thorough() ? std::vector<double>{-1, 0, 0.5, 1, 3, 3.5} : std::vector<double>{-1, 0, 0.5, 1, 3});
    for (auto p0 : G) for (auto p1 : G) {
        if (dist(p0, p1) == 0) continue;
        for (auto q0 : G) for (auto q1 : G) {
            if (dist(q0, q1) == 0) continue;
            if (!vp::begin()) continue;
            vp::describer() = [&] { return str(p0) + str(p1) + " x " + str(q0) + str(q1); };
            scalar s0 = -77, t0 = -77, s1 = -77, t1 = -77;
            auto n = intersect_segments(V2(p0), V2(p1), V2(q0), V2(q1), s0, t0, s1, t1);
            VP_CHECK(n <= 2, "%zu intersections", n);
            auto dp = sub(p1, p0), dq = sub(q1, q0), e = sub(q0, p0);
            double den = perp(dp, dq);
            if (den != 0) {
                double s = perp(e, dq) / den, t = perp(e, dp) / den, m = std::min(std::min(s, 1 - s), std::min(t, 1 - t));
                vp::nontrivial(m >= 0);
                // Exactly touching positions count up to rounding.
                if (std::abs(m) > 1e-6) VP_CHECK(n == (m > 0 ? 1u : 0u), "%zu intersections instead of %d", n, m > 0);
                if (n) {
                    VP_CHECK(n == 1, "two intersections of lines that are not parallel");
                    VP_CHECK(near(s0, s, 1e-5) && near(t0, t, 1e-5), "intersection at (%g, %g) instead of (%g, %g)", double(s0), double(t0), s, t);
                }
                continue;
            }
            if (perp(e, dp) != 0) { VP_CHECK(n == 0, "parallel segments on different lines intersect"); continue; }
            double pp = dp.x * dp.x + dp.y * dp.y;
            double a = (e.x * dp.x + e.y * dp.y) / pp, b = ((q1.x - p0.x) * dp.x + (q1.y - p0.y) * dp.y) / pp;
            double lo = std::max(0., std::min(a, b)), hi = std::min(1., std::max(a, b));
            size_t want = hi < lo ? 0 : hi == lo ? 1 : 2;
            vp::nontrivial(want != 0);
            if (hi == lo || std::abs(hi - lo) > 1e-5) VP_CHECK(n == want, "%zu intersections of collinear segments instead of %zu", n, want);
            if (n == 1) VP_CHECK(dist(along(p0, p1, s0), along(q0, q1, t0)) < 1e-5 && near(s0, lo, 1e-5), "the parameters do not give the common point");
            if (n == 2) {
                auto P = [&](double s) { return along(p0, p1, s); };
                auto Q = [&](double t) { return along(q0, q1, t); };
                bool fwd = near(s0, lo, 1e-5) && near(s1, hi, 1e-5), rev = near(s0, hi, 1e-5) && near(s1, lo, 1e-5);
                VP_CHECK(fwd || rev, "the overlap on the first segment is [%g, %g] instead of [%g, %g]", double(s0), double(s1), lo, hi);
                bool x = dist(P(lo), Q(t0)) < 1e-5 && dist(P(hi), Q(t1)) < 1e-5, y = dist(P(lo), Q(t1)) < 1e-5 && dist(P(hi), Q(t0)) < 1e-5;
                VP_CHECK(x || y, "the overlap on the second segment is wrong: [%g, %g]", double(t0), double(t1));
            }
        }
    }
}

VP_SCENARIO(line_aabb_2d) {
    auto G0 = grid(vp::thorough() ? std::vector<double>{-2, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2, 3} : std::vector<double>{-2, -1, -0.5, 0, 0.25, 0.5, 1, 2, 3});
    struct B { P2 lo, hi; };
    for (B box : {B{{-1, -1}, {1, 1}}, B{{-1, -0.5}, {2, 1}}, B{{0, -2}, {0.5, 3}}, B{{0.25, 0.25}, {3, 0.5}}, B{{-0.3, -0.7}, {0.3, 0.7}}, B{{0.1, -0.9}, {1.7, 0.33}}}) {
      auto G = G0;
      if (box.lo.x == -0.3 || box.lo.x == 0.1) { double mx = (box.lo.x + box.hi.x) / 2, my = (box.lo.y + box.hi.y) / 2, ex = box.hi.x - mx, ey = box.hi.y - my; G.clear(); for (int i = -3; i <= 3; ++i) for (int j = -3; j <= 3; ++j) G.push_back({mx + i * ex / 1.0, my + j * ey / 1.0}); }
      for (auto a : G) for (auto b : G) {
        if (dist(a, b) == 0) continue;
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "line " + str(a) + str(b) + " box " + str(box.lo) + str(box.hi); };
        scalar s0 = -77, s1 = -77;
        auto n = intersect_line_aabb(V2(a), V2(b), V2(box.lo), V2(box.hi), s0, s1);
        VP_CHECK(n <= 2, "%zu intersections", n);
        // Clip the line against both slabs: [lo, hi] is what remains.
        double lo = -1e300, hi = 1e300; bool miss = false;
        auto slab = [&](double p, double d, double mn, double mx) {
            if (d == 0) { if (p < mn || p > mx) miss = true; return; }
            double u = (mn - p) / d, v = (mx - p) / d;
            lo = std::max(lo, std::min(u, v)); hi = std::min(hi, std::max(u, v));
        };
        slab(a.x, b.x - a.x, box.lo.x, box.hi.x); slab(a.y, b.y - a.y, box.lo.y, box.hi.y);
        if (!miss && hi - lo < -1e-5) miss = true;
        vp::nontrivial(!miss);
        if (miss) { VP_CHECK(n == 0, "%zu intersections of a line that misses the box", n); continue; }
        if (hi - lo > 1e-5) {
            VP_CHECK(n == 2, "%zu intersections of a line that crosses the box", n);
            double x = std::min(s0, s1), y = std::max(s0, s1);
            VP_CHECK(near(x, lo, 1e-5) && near(y, hi, 1e-5), "the line is in the box from %g to %g instead of %g to %g", x, y, lo, hi);
        } else {
            for (size_t i = 0; i < n; ++i) VP_CHECK(near(i ? s1 : s0, lo, 1e-5), "a line through a corner meets the box at %g instead of %g", double(i ? s1 : s0), lo);
        }
    }
    }
}

VP_SCENARIO(aabb_pairs) {
    // All pairs of intervals per axis, on one axis at a time and on all.
    std::vector<double> v = {-2, -1, 0, 0.5, 1, 2};
    for (double a0 : v) for (double a1 : v) if (a0 <= a1) for (double b0 : v) for (double b1 : v) if (b0 <= b1) for (int other = 0; other < 64; ++other) {
        if (!vp::begin()) continue;
        for (int ax = 0; ax < 3; ++ax) {
            // The other two axes: overlapping, touching, apart on either side.
            auto iv = [](int k, double &lo, double &hi) { lo = k == 0 ? 0.5 : k == 1 ? 1 : k == 2 ? 1.5 : -3; hi = lo + 1; };
            D3 mn0, mx0, mn1, mx1;
            mn0[ax] = a0; mx0[ax] = a1; mn1[ax] = b0; mx1[ax] = b1;
            bool want = a0 <= b1 && b0 <= a1;
            for (int k = 1; k < 3; ++k) {
                int o = (ax + k) % 3, code = k == 1 ? other % 8 : other / 8;
                double lo, hi; iv(code % 4, lo, hi);
                mn0[o] = 0; mx0[o] = 1; mn1[o] = lo; mx1[o] = hi;
                if (code >= 4) { std::swap(mn0[o], mn1[o]); std::swap(mx0[o], mx1[o]); }
                want = want && mn0[o] <= mx1[o] && mn1[o] <= mx0[o];
            }
            vp::describer() = [&] { return str(mn0) + str(mx0) + " and " + str(mn1) + str(mx1); };
            vp::nontrivial(want);
            VP_CHECK(intersect_aabb(V(mn0), V(mx0), V(mn1), V(mx1)) == want, "intersect_aabb is not %d", int(want));
            VP_CHECK(intersect_aabb(V(mn1), V(mx1), V(mn0), V(mx0)) == want, "intersect_aabb is not symmetric");
            AABB A{V(mn0), V(mx0)}, B{V(mn1), V(mx1)};
            VP_CHECK(intersect(A, B) == want && intersect(B, A) == want, "boxes intersect: not %d", int(want));
            auto le = [](D3 p, D3 q) { return p.x <= q.x && p.y <= q.y && p.z <= q.z; };
            VP_CHECK(A.contains(B) == (le(mn0, mn1) && le(mx1, mx0)), "containment of a box");
            VP_CHECK(A.contains(V(mn1)) == (le(mn0, mn1) && le(mn1, mx0)) && A.contains(V(mx1)) == (le(mn0, mx1) && le(mx1, mx0)), "containment of a point");
            auto E = enclosing_aabb(A, B);
            for (int k = 0; k < 3; ++k) {
                VP_CHECK(E.min[k] == scalar(std::min(mn0[k], mn1[k])) && E.max[k] == scalar(std::max(mx0[k], mx1[k])), "enclosing box");
                VP_CHECK(A.center()[k] == scalar((mn0[k] + mx0[k]) / 2) && A.size()[k] == scalar(mx0[k] - mn0[k]), "centre or size");
                auto I = A.inset({scalar(-0.25), scalar(0.5), scalar(-2)}); double in[3] = {-0.25, 0.5, -2};
                VP_CHECK(I.min[k] == scalar(mn0[k] + in[k]) && I.max[k] == scalar(mx0[k] - in[k]), "inset");
            }
            D3 z0 = mx0 - mn0; VP_CHECK(A.area() == scalar(2 * (z0.x * z0.y + z0.y * z0.z + z0.z * z0.x)), "area");
        }
    }
}

VP_SCENARIO(segment_aabb_3d) {
    std::vector<double> v = vp::thorough() ? std::vector<double>{-3, -1, -0.2, 0.5, 2, 4} : std::vector<double>{-3, -1, 0.5, 2};
    auto P = lattice(v);
    struct B { D3 lo, hi; };
    for (B box : {B{{-1, -1, -1}, {1, 1, 1}}, B{{-0.5, -2, 0.25}, {2, 0.5, 1}}, B{{0.5, -1, 0}, {0.5, 2, 3}}, B{{2, 0.5, -1}, {4, 0.5, -1}}}) for (auto a : P) for (auto b : P) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "segment " + str(a) + str(b) + " box " + str(box.lo) + str(box.hi); };
        auto clip = [&](double m) {  // does the segment meet the box grown by m?
            double lo = 0, hi = 1;
            for (int i = 0; i < 3; ++i) {
                double p = a[i], d = b[i] - a[i], g = box.lo[i] == box.hi[i] ? std::max(0., m) : m, mn = box.lo[i] - g, mx = box.hi[i] + g;
                if (d == 0) { if (p < mn || p > mx) return false; continue; }
                double u = (mn - p) / d, w = (mx - p) / d;
                lo = std::max(lo, std::min(u, w)); hi = std::min(hi, std::max(u, w));
            }
            return lo <= hi;
        };
        bool hit = intersect_segment_aabb(V(a), V(b), V(box.lo), V(box.hi));
        vp::nontrivial(clip(0));
        if (clip(-1e-4)) VP_CHECK(hit, "a segment that meets the box is reported to miss it");
        else if (!clip(1e-4)) VP_CHECK(!hit, "a segment that misses the box is reported to meet it");
    }
}

VP_SCENARIO(ray_sphere) {
    std::vector<double> v = vp::thorough() ? std::vector<double>{-3, -1, -0.5, 0.1, 0.7, 2} : std::vector<double>{-3, -1, 0.1, 0.7, 2};
    auto P = lattice(v);
    for (D3 c : {D3{0, 0, 0}, D3{0.5, -1, 0.25}}) for (double r : {0.5, 1., 2.5}) for (auto a : P) for (auto b : P) {
        if (n2(a - b) == 0) continue;
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "ray " + str(a) + str(b) + " sphere " + str(c) + " r " + std::to_string(r); };
        scalar t = -77;
        bool hit = intersect_ray_sphere(V(a), V(b), V(c), scalar(r), t);
        D3 d = b - a, m = a - c;
        double A = n2(d), B = dt(m, d), C = n2(m) - r * r, disc = B * B - A * C;
        if (std::abs(disc) < 1e-4 * (1 + A) || std::abs(C) < 1e-5) { vp::nontrivial(); VP_CHECK(!hit || (std::isfinite(t) && t >= 0), "grazing ray: t = %g", double(t)); continue; }
        bool want = disc > 0 && (C < 0 || B < 0);
        vp::nontrivial(want);
        VP_CHECK(hit == want, "the ray %s the sphere", want ? "hits" : "misses");
        if (want) {
            double expect = C < 0 ? 0 : (-B - std::sqrt(disc)) / A;
            VP_CHECK(near(t, expect, 2e-3), "the ray enters the sphere at %g instead of %g", double(t), expect);
            if (C > 0) VP_CHECK(std::abs(nm(a + d * double(t) - c) - r) < 5e-3 * (1 + nm(d)), "the intersection is not on the sphere");
        }
    }
}

VP_SCENARIO(ray_cylinder) {
    using kind = decltype(intersect_ray_cylinder_result::kind);
    std::vector<double> v = {-2, -0.5, 0.25, 1};
    auto P = lattice(v);
    auto orns = orientations(vp::thorough());
    for (auto &q : orns) for (int ax = 0; ax < 3; ++ax) for (double r : {0.4, 1.5}) for (double h : {0.5, 2.}) for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < P.size(); j += vp::thorough() ? 1 : 3) {
        if (i == j) continue;
        if (!vp::begin()) continue;
        D3 c{0.5, -1, 0.25}, a = P[i], b = P[j], u = rot(q, axis_dir(ax));
        vp::describer() = [&] { return "ray " + str(a) + str(b) + " cylinder " + str(q) + " axis " + std::to_string(ax) + " r " + std::to_string(r) + " h " + std::to_string(h); };
        scalar f0 = -77, f1 = -77;
        auto res = intersect_ray_cylinder(V(a), V(b), V(c), q, scalar(r), scalar(h), coordinate_axis(ax), f0, f1);
        D3 d = b - a; auto radial = [&](D3 x) { D3 w = x - c; return w - u * dt(w, u); };
        D3 m = radial(a), e = d - u * dt(d, u);
        double A = n2(e), B = dt(m, e), C = n2(m) - r * r;
        if (A < 1e-4 * n2(d)) { if (A < 1e-10) VP_CHECK(res.kind == kind::parallel_directions, "a ray along the cylinder is not reported as parallel"); continue; }
        VP_CHECK(res.kind != kind::parallel_directions, "reported as parallel");
        double dmin2 = n2(m) - B * B / A;
        if (std::abs(std::sqrt(std::max(0., dmin2)) - r) < 1e-3) continue;
        bool want = dmin2 < r * r;
        vp::nontrivial(want);
        VP_CHECK((res.kind == kind::intersects) == want, "the ray passes at %g from the axis, radius %g", std::sqrt(dmin2), r);
        if (!want) continue;
        double disc = std::sqrt(B * B - A * C), in = (-B - disc) / A, out = (-B + disc) / A;
        VP_CHECK(near(f0, in, 3e-3) && near(f1, out, 3e-3), "enters at %g and leaves at %g instead of %g and %g", double(f0), double(f1), in, out);
        VP_CHECK(near(std::sqrt(std::max(0., double(res.dist_sqr))), std::sqrt(std::max(0., dmin2)), 3e-3), "distance between the lines %g instead of %g", std::sqrt(double(res.dist_sqr)), std::sqrt(dmin2));
        D3 at = m - e * (B / A);
        VP_CHECK(near(D3(res.normal), at, 3e-3), "the vector between the lines is %s instead of %s", geo::str(D3(res.normal)).c_str(), geo::str(at).c_str());
    }
}

namespace {
struct tri { D3 v[3]; D3 n() const { return unit(cr(v[1] - v[0], v[2] - v[0])); } };
std::vector<tri> triangles() {
    std::vector<tri> r;
    auto L = lattice({-1, 0, 2}, {-1, 0.5}, {0, 1});
    for (size_t i = 0; i < L.size(); ++i) for (size_t j = 0; j < L.size(); ++j) for (size_t k = 0; k < L.size(); ++k)
        if (i != j && j != k && i != k && nm(cr(L[j] - L[i], L[k] - L[i])) > 0.1) r.push_back({{L[i], L[j], L[k]}});
    return r;
}
// Signed distance of a point of the plane to the boundary of the triangle, positive inside.
double inside(const tri &t, D3 p) {
    D3 n = t.n(); double m = 1e9;
    for (int i = 0; i < 3; ++i) { D3 e = unit(t.v[(i + 1) % 3] - t.v[i]); m = std::min(m, dt(cr(n, e), p - t.v[i])); }
    return m;
}
}

VP_SCENARIO(segment_triangle) {
    auto T = triangles();
    auto P = lattice({-1.5, 0.1, 1.2});
    size_t step = vp::thorough() ? 1 : 4;
    for (size_t k = 0; k < T.size(); k += step) {
        auto &t = T[k]; D3 n = t.n();
        for (auto a : P) for (auto b : P) {
            if (n2(a - b) == 0) continue;
            if (!vp::begin()) continue;
            vp::describer() = [&] { return "segment " + str(a) + str(b) + " triangle " + str(t.v[0]) + str(t.v[1]) + str(t.v[2]); };
            std::array<vector3, 3> vs{V(t.v[0]), V(t.v[1]), V(t.v[2])};
            scalar s = -77;
            bool hit = intersect_segment_triangle(V(a), V(b), vs, V(n), s);
            double d = dt(b - a, n), e = dt(t.v[0] - a, n);
            if (std::abs(d) < 1e-5) { if (std::abs(e) > 1e-3) VP_CHECK(!hit, "a segment parallel to the triangle and off its plane is reported to hit it"); continue; }
            double x = e / d; D3 p = a + (b - a) * x; double m = inside(t, p);
            bool band = std::abs(x) < 1e-4 || std::abs(x - 1) < 1e-4 || std::abs(m) < 1e-4 * (1 + std::abs(1 / d));
            bool want = x > 0 && x < 1 && m > 0;
            vp::nontrivial(want);
            if (!band) VP_CHECK(hit == want, "the segment %s the triangle", want ? "hits" : "misses");
            if (hit) VP_CHECK(near(s, x, 1e-3), "intersection at %g instead of %g", double(s), x);
        }
    }
}

VP_SCENARIO(polygonal_prism) {
    // Convex polygons in several planes, counter-clockwise about the normal.
    std::vector<std::vector<P2>> polys = {{{0, 0}, {2, 0}, {0, 1}}, {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}, {{0, 0}, {3, -1}, {4, 2}, {2, 4}, {-1, 2}}, {{-1, 0}, {0, -0.25}, {1, 0}, {0.5, 2}}};
    auto G = grid({-2, -1, -0.4, 0.1, 0.6, 1.3, 2.2, 3.5});
    for (auto &q : orientations(1)) for (auto &poly : polys) for (size_t start = 0; start < poly.size(); ++start) for (auto g : G) for (double h : {0., -1.5, 2.}) {
        if (!vp::begin()) continue;
        D3 o{0.5, -1, 0.25}, n = rot(q, {0, 0, 1});
        std::vector<vector3> vs, padded = {vector3{9, 9, 9}}; std::vector<size_t> idx;
        for (size_t i = 0; i < poly.size(); ++i) { auto p = poly[(start + i) % poly.size()]; D3 w = o + rot(q, {p.x, p.y, 0}); vs.push_back(V(w)); }
        for (size_t i = 0; i < vs.size(); ++i) { padded.push_back(vs[vs.size() - 1 - i]); idx.push_back(vs.size() - i); }
        double m = 1e9;
        for (size_t i = 0; i < poly.size(); ++i) { auto a = poly[i], b = poly[(i + 1) % poly.size()]; m = std::min(m, perp(sub(b, a), sub(g, a)) / dist(a, b)); }
        vector3 pt = V(o + rot(q, {g.x, g.y, h}));
        vp::describer() = [&] { return "polygon of " + std::to_string(poly.size()) + " from vertex " + std::to_string(start) + " point " + str(g) + " height " + std::to_string(h); };
        bool in = point_in_polygonal_prism(padded, idx, V(n), pt);
        vp::nontrivial(m > 0);
        if (std::abs(m) < 1e-4) continue;
        VP_CHECK(in == (m > 0), "the point is %s the prism (indices)", m > 0 ? "inside" : "outside");
        if (vs.size() == 3) VP_CHECK(point_in_polygonal_prism(std::array<vector3, 3>{vs[0], vs[1], vs[2]}, V(n), pt) == (m > 0), "array of 3 vertices: the point is %s the prism", m > 0 ? "inside" : "outside");
        if (vs.size() == 4) VP_CHECK(point_in_polygonal_prism(std::array<vector3, 4>{vs[0], vs[1], vs[2], vs[3]}, V(n), pt) == (m > 0), "array of 4 vertices: the point is %s the prism", m > 0 ? "inside" : "outside");
    }
}

VP_SCENARIO(minkowski_face) {
    auto D = directions();
    size_t step = vp::thorough() ? 1 : 3;
    for (size_t i = 0; i < D.size(); ++i) for (size_t j = 0; j < D.size(); ++j) {
        D3 A = D[i], B = D[j], n1 = cr(A, B);
        if (nm(n1) < 1e-3) continue;
        for (size_t k = 0; k < D.size(); ++k) for (size_t l = k % step; l < D.size(); l += step) {
            D3 C = D[k], E = D[l], n2_ = cr(C, E);
            if (nm(n2_) < 1e-3) continue;
            if (!vp::begin()) continue;
            vp::describer() = [&] { return "normals " + str(A) + str(B) + " and " + str(C) + str(E); };
            // The arcs A-B and (-C)-(-E) of the unit sphere cross.
            D3 c = -C, e = -E, x = cr(n1, n2_);
            double m = nm(x);
            bool want = false, band = m < 1e-4;
            if (!band) for (double sg : {1., -1.}) {
                D3 p = x * (sg / m); D3 u1 = unit(n1), u2 = unit(n2_);
                double w[4] = {dt(cr(A, p), u1), dt(cr(p, B), u1), dt(cr(c, p), u2), dt(cr(p, e), u2)};
                double lo = std::min(std::min(w[0], w[1]), std::min(w[2], w[3]));
                if (std::abs(lo) < 1e-4) band = true;
                if (lo > 0) want = true;
            }
            if (band) continue;
            vp::nontrivial(want);
            VP_CHECK(edges_generate_minkowski_face(V(A), V(B), V(C), V(E), V(cr(B, A)), V(cr(E, C))) == want, "the edges %s a face of the Minkowski difference", want ? "build" : "do not build");
        }
    }
}
