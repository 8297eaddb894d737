// Closest points between points, lines, segments, discs and boxes against closed forms in
// double precision, on every input of a lattice that contains all degenerate positions.
#include "geo.hpp"
#include "edyn/math/geom.hpp"
using namespace edyn;
using namespace geo;

namespace {
constexpr double TOL = 2e-5;
std::vector<D3> pts() {
    auto l = vp::thorough() ? lattice({-1, 0, 0.125, 0.5, 2}) : lattice({-1, 0, 0.5, 2});
    for (D3 d : {D3{0.25, -0.75, 1.5}, D3{3, 1, -2}, D3{0.1, 0.1, 0.1}}) l.push_back(d);
    return l;
}
}

VP_SCENARIO(point_to_segment_and_line) {
    auto P = vp::thorough() ? pts() : pts();
    for (auto a : P) for (auto b : P) {
        if (n2(b - a) == 0) continue;
        for (auto p : P) {
            if (!vp::begin()) continue;
            vp::nontrivial(dt(p - a, b - a) != 0);
            vp::describer() = [&] { return "segment " + str(a) + str(b) + " point " + str(p); };
            scalar t = -7; vector3 q{};
            D3 v = b - a;
            auto d2 = closest_point_segment(V(a), V(b), V(p), t, q);
            double want = d2_point_segment(p, a, b);
            VP_CHECK(near(d2, want, TOL), "distance to the segment: %g, expected %g", double(d2), want);
            VP_CHECK(t >= 0 && t <= 1 && near(D3(q), a + v * t, TOL), "closest point on the segment is not at its parameter");
            VP_CHECK(near(n2(p - D3(q)), want, TOL), "the point returned is not closest");
            scalar tl = -7; vector3 r{};
            auto d2l = closest_point_line(V(a), V(v), V(p), tl, r);
            double tt = dt(p - a, v) / n2(v), wl = n2(p - (a + v * tt));
            VP_CHECK(near(tl, tt, TOL) && near(D3(r), a + v * tt, TOL) && near(d2l, wl, TOL), "closest point on a line is wrong");
            VP_CHECK(near(distance_sqr_line(V(a), V(v), V(p)), wl, TOL), "distance to a line is wrong");
        }
    }
}

VP_SCENARIO(line_line) {
    auto P = pts();
    D3 o{0, 0, 0};
    std::vector<D3> dirs = lattice({-1, 0, 1});
    dirs.push_back({0.5, 2, -1}); dirs.push_back({3, 1, 1});
    for (auto p1 : P) for (auto d1 : dirs) for (auto p2 : {D3{0, 0, 0}, D3{1, -1, 2}, D3{0.5, 0.25, -3}}) for (auto d2 : dirs) {
        if (n2(d1) == 0 || n2(d2) == 0) continue;
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "lines " + str(p1) + "+" + str(d1) + " " + str(p2) + "+" + str(d2); };
        bool par = n2(cr(d1, d2)) < 1e-9;
        vp::nontrivial(!par);
        scalar s = 0, t = 0;
        bool ok = closest_point_line_line(V(p1), V(p1 + d1), V(p2), V(p2 + d2), s, t);
        VP_CHECK(ok == !par, "parallel lines are not told apart from others");
        if (!ok) continue;
        D3 c = (p1 + d1 * s) - (p2 + d2 * t);
        VP_CHECK(near(dt(c, d1), 0, 1e-4) && near(dt(c, d2), 0, 1e-4), "the vector between the closest points is not orthogonal to both lines");
    }
}

namespace {
void seg_seg(D3 p1, D3 q1, D3 p2, D3 q2) {
    if (!vp::begin()) return;
    vp::describer() = [&] { return "segments " + str(p1) + str(q1) + " " + str(p2) + str(q2); };
    D3 d1 = q1 - p1, d2 = q2 - p2;
    double want = d2_segment_segment(p1, q1, p2, q2);
    vp::nontrivial(n2(d1) > 0 && n2(d2) > 0);
    for (int mode = 0; mode < 2; ++mode) {
        scalar s = -7, t = -7, sp = -7, tp = -7;
        vector3 c1{}, c2{}, c1p{}, c2p{};
        size_t num = 77;
        auto r = mode ? closest_point_segment_segment(V(p1), V(q1), V(p2), V(q2), s, t, c1, c2, &num, &sp, &tp, &c1p, &c2p)
                      : closest_point_segment_segment(V(p1), V(q1), V(p2), V(q2), s, t, c1, c2);
        VP_CHECK(near(r, want, TOL), "squared distance %g, expected %g (mode %d)", double(r), want, mode);
        VP_CHECK(s >= 0 && s <= 1 && t >= 0 && t <= 1, "parameters outside the segments: %g %g", double(s), double(t));
        VP_CHECK(near(D3(c1), p1 + d1 * s, TOL) && near(D3(c2), p2 + d2 * t, TOL), "points are not at their parameters");
        VP_CHECK(near(n2(D3(c1) - D3(c2)), want, TOL), "points are not closest points");
        if (!mode) continue;
        VP_CHECK(num == 1 || num == 2, "number of closest points is %zu", num);
        bool par = n2(d1) > 0 && n2(d2) > 0 && n2(cr(d1, d2)) < 1e-10 * n2(d1) * n2(d2);
        // Overlap of the projections on the common direction.
        double lo = 0, hi = 0;
        if (par) {
            double a = dt(p2 - p1, d1) / n2(d1), b = dt(q2 - p1, d1) / n2(d1);
            lo = std::max(0., std::min(a, b)); hi = std::min(1., std::max(a, b));
        }
        bool range = par && hi - lo > 1e-3;
        VP_CHECK((num == 2) == range, "%zu closest points reported for %s", num, range ? "overlapping parallel segments" : "segments with a single closest point");
        if (num == 2) {
            VP_CHECK(sp >= 0 && sp <= 1 && tp >= 0 && tp <= 1 && near(D3(c1p), p1 + d1 * sp, TOL) && near(D3(c2p), p2 + d2 * tp, TOL), "second points are not at their parameters");
            VP_CHECK(near(n2(D3(c1p) - D3(c2p)), want, TOL), "the second pair of points is not a pair of closest points: %s %s", str(D3(c1p)).c_str(), str(D3(c2p)).c_str());
            VP_CHECK(near(std::min(s, sp), lo, 1e-4) && near(std::max(s, sp), hi, 1e-4), "the two closest points do not span the overlap");
        }
    }
}
}

VP_SCENARIO(segment_segment) {
    // By translation invariance the first point may be fixed; the rest run over a lattice.
    auto P = vp::thorough() ? lattice({-1, -0.25, 0, 0.5, 1, 2}) : lattice({-1, 0, 0.5, 2});
    std::vector<D3> first = vp::thorough() ? std::vector<D3>{{0, 0, 0}, {1, -2, 0.5}} : std::vector<D3>{{0, 0, 0}, {1, -2, 0.5}};
    for (auto p1 : first) for (auto q1 : P) for (auto p2 : P) for (auto q2 : P) seg_seg(p1, q1, p2, q2);
    // Parallel and antiparallel, all overlaps.
    for (auto d : {D3{1, 0, 0}, D3{0, -1, 0}, D3{1, 1, 1}, D3{1, 2, -2}})
        for (double a = -2; a <= 3; a += 0.5) for (double b = -2; b <= 3; b += 0.5) for (auto off : {D3{0, 0, 0}, D3{2, -1, 0.5}}) {
            D3 o = off - d * (dt(off, d) / n2(d));
            seg_seg({0, 0, 0}, d, o + d * a, o + d * b);
        }
    // Nearly parallel segments that cross or pass each other.
    for (double len : {1., 4.}) for (double ang : {0.002, 0.005, 0.02}) for (double at : {-0.25, 0., 0.3, 0.5, 1., 1.2}) for (double from : {-1., 0., 0.25, 0.5}) for (double to : {0.75, 1., 2.}) for (int flip = 0; flip < 2; ++flip) for (double gap : {0., 0.5}) {
        if (!vp::begin()) continue;
        vp::describe("segments of length %g at an angle of %g meeting at %g, from %g to %g, gap %g", len, ang, at, from, to, gap);
        D3 u{len, 0, 0}, v{len * std::cos(ang), len * std::sin(ang), 0}, m = u * at; D3 p2 = m + v * (from - at) + D3{0, 0, gap}, q2 = m + v * (to - at) + D3{0, 0, gap};
        if (flip) std::swap(p2, q2);
        p2 = D3(V(p2)); q2 = D3(V(q2));
        double want = std::sqrt(d2_segment_segment({0, 0, 0}, u, p2, q2));
        for (int mode = 0; mode < 2; ++mode) {
            scalar s = -7, t = -7, sp, tp; vector3 c1{}, c2{}, c1p, c2p; size_t num = 77;
            mode ? closest_point_segment_segment(vector3_zero, V(u), V(p2), V(q2), s, t, c1, c2, &num, &sp, &tp, &c1p, &c2p) : closest_point_segment_segment(vector3_zero, V(u), V(p2), V(q2), s, t, c1, c2);
            double got = nm(D3(c1) - D3(c2));
            VP_CHECK(s >= 0 && s <= 1 && t >= 0 && t <= 1 && got < want + 1e-3, "nearly parallel segments: distance %g instead of %g", got, want);
        }
        vp::nontrivial();
    }
}

VP_SCENARIO(point_to_disc) {
    auto P = pts();
    for (auto &q : orientations(vp::thorough())) for (int ax = 0; ax < 3; ++ax) for (double r : {0.5, 1., 2.}) for (auto c : {D3{0, 0, 0}, D3{1, 0.5, -1}}) for (auto p : P) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "disc " + str(c) + str(q) + " axis " + std::to_string(ax) + " r " + std::to_string(r) + " point " + str(p); };
        vector3 out{};
        auto d2 = closest_point_disc(V(c), q, scalar(r), coordinate_axis(ax), V(p), out);
        D3 n = rot(q, axis_dir(ax)), d = p - c;
        double h = dt(d, n); D3 f = d - n * h;
        double rho = nm(f), want = h * h + std::pow(std::max(0., rho - r), 2);
        vp::nontrivial(rho > r);
        VP_CHECK(near(d2, want, 1e-4), "squared distance to the disc is %g, expected %g", double(d2), want);
        D3 o = D3(out) - c;
        VP_CHECK(std::abs(dt(o, n)) < 1e-4 && nm(o) < r + 1e-4, "the closest point does not lie on the disc");
        VP_CHECK(near(n2(p - D3(out)), want, 1e-4), "the point returned is not closest");
    }
}

VP_SCENARIO(point_and_box) {
    std::vector<D3> hs = {{1, 1, 1}, {0.5, 2, 1}, {1, 0.25, 3}, {2, 2, 0.125}};
    std::vector<double> fr = {-2, -1.25, -1, -0.75, -0.25, 0, 0.125, 0.5, 0.875, 1, 1.5};
    for (auto h : hs) for (double fx : fr) for (double fy : fr) for (double fz : fr) {
        if (!vp::begin()) continue;
        D3 p{fx * h.x, fy * h.y, fz * h.z};
        vp::describer() = [&] { return "box " + str(h) + " point " + str(p); };
        D3 c = closest_point_box_outside(V(h), V(p));
        D3 want;
        bool inside = true;
        for (int i = 0; i < 3; ++i) { want[i] = std::max(-h[i], std::min(h[i], p[i])); inside = inside && std::abs(p[i]) <= h[i]; }
        VP_CHECK(near(c, want, 1e-6), "closest point of a box from outside is %s, expected %s", str(c).c_str(), str(want).c_str());
        vp::nontrivial(inside);
        if (!inside) continue;
        vector3 cl{}, nr{};
        double d = closest_point_box_inside(V(h), V(p), cl, nr);
        double best = 1e9;
        for (int i = 0; i < 3; ++i) best = std::min(best, h[i] - std::abs(p[i]));
        D3 n = nr, q = cl;
        VP_CHECK(near(nm(p - q), best, 1e-5), "the surface point returned is not closest");
        VP_CHECK(near(d, best, 1e-5), "distance to the surface is %g, expected %g", d, best);
        bool on = false;
        for (int i = 0; i < 3; ++i) for (int s = -1; s <= 1; s += 2) {
            D3 f; f[i] = s;
            if (near(n, f, 1e-6) && near(q[i], s * h[i], 1e-6)) on = true;
        }
        VP_CHECK(on, "the normal %s is not the normal of the face at %s", str(n).c_str(), str(q).c_str());
    }
}

VP_SCENARIO(bases) {
    std::vector<D3> ds = directions();
    for (int i = 0; i <= (vp::thorough() ? 200 : 60); ++i) for (int j = 0; j < 60; ++j) {
        double th = PI * i / (vp::thorough() ? 200 : 60), ph = 2 * PI * j / 60;
        ds.push_back({std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)});
    }
    for (auto n : ds) {
        if (!vp::begin()) continue;
        vp::nontrivial();
        vp::describer() = [&] { return "normal " + str(n); };
        vector3 p{}, q{};
        plane_space(V(n), p, q);
        D3 P = p, R = q;
        VP_CHECK(near(nm(P), 1, 1e-5) && near(nm(R), 1, 1e-5), "tangents are not unit vectors");
        VP_CHECK(std::abs(dt(P, n)) < 1e-5 && std::abs(dt(R, n)) < 1e-5 && std::abs(dt(P, R)) < 1e-5, "tangents are not orthogonal");
        VP_CHECK(near(cr(n, P), R, 1e-5), "the basis is not right-handed");
        auto m = make_tangent_basis(V(n));
        D3 c0{m.row[0].x, m.row[1].x, m.row[2].x}, c1{m.row[0].y, m.row[1].y, m.row[2].y}, c2{m.row[0].z, m.row[1].z, m.row[2].z};
        VP_CHECK(near(c1, n, 1e-6), "the normal is not the second column of the tangent basis");
        VP_CHECK(near(nm(c0), 1, 1e-5) && near(nm(c2), 1, 1e-5) && std::abs(dt(c0, n)) < 1e-5 && std::abs(dt(c2, n)) < 1e-5 && std::abs(dt(c0, c2)) < 1e-5, "the tangent basis is not orthonormal");
    }
}

VP_SCENARIO(support) {
    for (auto &q : orientations(1)) for (int ax = 0; ax < 3; ++ax) for (double r : {0.25, 1., 3.}) for (auto d : directions()) for (double sc : {1., 0.01, 50.}) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "circle " + str(q) + " axis " + std::to_string(ax) + " dir " + str(d); };
        D3 c{0.5, -1, 2};
        D3 s = support_point_circle(V(c), q, scalar(r), coordinate_axis(ax), V(d * sc));
        D3 n = rot(q, axis_dir(ax));
        VP_CHECK(std::abs(dt(s - c, n)) < 1e-4 && near(nm(s - c), r, 1e-4), "the support point is not on the circle");
        double want = r * nm(d - n * dt(d, n));
        vp::nontrivial(want > 1e-3);
        VP_CHECK(near(dt(s - c, d), want, 1e-3), "another point of the circle is further along the direction");
    }
    // Vertices: all triples of a lattice.
    auto P = lattice({-1, 0, 2});
    for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < P.size(); ++j) {
        if (!vp::begin()) continue;
        for (auto k : P) for (auto d : directions(false)) {
            std::array<vector3, 4> vs = {V(P[i]), V(P[j]), V(k), V(P[(i + j) % P.size()])};
            size_t idx = 99; scalar proj = 0;
            support_point_vertices(vs, V(d), idx, proj);
            double best = -1e9;
            for (auto &v : vs) best = std::max(best, dt(D3(v), d));
            VP_CHECK(idx < 4 && near(proj, best, 1e-5) && near(dt(D3(vs[idx]), d), best, 1e-5), "not the vertex furthest along the direction");
        }
    }
}

// Convex polygons in several planes against the half-plane definition.
VP_SCENARIO(polygon_prism) {
    for (int n = 3; n <= 8; ++n) for (int pl = 0; pl < 4; ++pl) for (double tw : {0., 0.3}) for (double ex : {1., 0.35}) {
        D3 nrm = pl == 0 ? D3{0, 0, 1} : pl == 1 ? D3{1, 0, 0} : pl == 2 ? unit({1, 1, 1}) : unit({-1, 2, 0.5});
        D3 u = unit(cr(nrm, std::abs(nrm.x) < 0.9 ? D3{1, 0, 0} : D3{0, 1, 0})), w = cr(nrm, u);
        std::vector<vector3> vs; std::vector<size_t> idx;
        vs.push_back(vector3{9, 9, 9});
        for (int i = 0; i < n; ++i) {
            double a = 2 * PI * i / n + tw;
            vs.push_back(V(u * std::cos(a) + w * (ex * std::sin(a)) + nrm * 0.5));
            idx.push_back(size_t(i + 1));
        }
        std::vector<vector3> only(vs.begin() + 1, vs.end());
        for (double x = -1.2; x <= 1.21; x += 0.15) for (double y = -1.2; y <= 1.21; y += 0.15) for (double h : {-2., 0.5, 4.}) {
            if (!vp::begin()) continue;
            D3 p = u * x + w * y + nrm * h;
            vp::describer() = [&] { return "polygon of " + std::to_string(n) + " plane " + std::to_string(pl) + " point " + str(p); };
            double worst = -1e9;
            for (int i = 0; i < n; ++i) {
                D3 a = only[i], b = only[(i + 1) % n];
                worst = std::max(worst, dt(p - a, unit(cr(b - a, nrm))));
            }
            if (std::abs(worst) < 1e-3) continue;
            vp::nontrivial();
            VP_CHECK(point_in_polygonal_prism(vs, idx, V(nrm), V(p)) == (worst < 0), "point wrongly placed with respect to the polygon (margin %g)", worst);
            if (n == 3) { std::array<vector3, 3> a = {only[0], only[1], only[2]}; VP_CHECK(point_in_polygonal_prism(a, V(nrm), V(p)) == (worst < 0), "point wrongly placed with respect to the triangle"); }
            if (n == 4) { std::array<vector3, 4> a = {only[0], only[1], only[2], only[3]}; VP_CHECK(point_in_polygonal_prism(a, V(nrm), V(p)) == (worst < 0), "point wrongly placed with respect to the quadrilateral"); }
        }
    }
}
