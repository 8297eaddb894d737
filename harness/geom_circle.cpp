// Circle queries against brute force minima in double precision.
#include "geo.hpp"
#include "edyn/math/geom.hpp"
using namespace edyn;
using namespace geo;

namespace {
double line_dist2(D3 p, D3 a, D3 d) { D3 w = p - a; return n2(w - d * (dt(w, d) / n2(d))); }

struct circ { D3 c, u, v, n; double r; D3 at(double t) const { return c + (u * std::cos(t) + v * std::sin(t)) * r; } };
circ make(D3 c, const quaternion &q, int ax, double r) { return {c, rot(q, axis_dir((ax + 1) % 3)), rot(q, axis_dir((ax + 2) % 3)), rot(q, axis_dir(ax)), r}; }
bool on(const circ &c, D3 p, double tol) { return std::abs(dt(p - c.c, c.n)) < tol && std::abs(nm(p - c.c) - c.r) < tol; }
// Squared distance of a point to a circle, closed form.
double circ_dist2(const circ &c, D3 p) { D3 d = p - c.c; double h = dt(d, c.n); double rho = nm(d - c.n * h); return h * h + (rho - c.r) * (rho - c.r); }
// Global minimum of a function of an angle: dense grid and golden section refinement.
template<typename F> double minimise(F f, int n = 720) {
    double best = 1e300; int bi = 0;
    std::vector<double> vals(n);
    for (int i = 0; i < n; ++i) vals[i] = f(2 * PI * i / n);
    for (int i = 0; i < n; ++i) {
        double l = vals[(i + n - 1) % n], m = vals[i], r = vals[(i + 1) % n];
        if (m <= l && m <= r) {
            double a = 2 * PI * (i - 1) / n, b = 2 * PI * (i + 1) / n;
            for (int k = 0; k < 60; ++k) { double x = a + (b - a) * 0.382, y = a + (b - a) * 0.618; if (f(x) < f(y)) b = y; else a = x; }
            best = std::min(best, f((a + b) / 2));
        }
    }
    return best;
}
}

VP_SCENARIO(line_circle_2d) {
    std::vector<double> vs = {-2, -1, -0.5, 0, 0.25, 1, 2, 3};
    for (double r : {0.5, 1., 2.}) for (double ax : vs) for (double ay : vs) for (double bx : vs) for (double by : vs) {
        if (ax == bx && ay == by) continue;
        if (!vp::begin()) continue;
        vp::describer() = [&] { char b[128]; snprintf(b, sizeof b, "line (%g,%g)(%g,%g) radius %g", ax, ay, bx, by, r); return std::string(b); };
        double dx = bx - ax, dy = by - ay, dl2 = dx * dx + dy * dy, dp = ax * dx + ay * dy, disc = dp * dp - dl2 * (ax * ax + ay * ay - r * r);
        scalar s0 = -77, s1 = -77;
        auto n = intersect_line_circle(vector2{scalar(ax), scalar(ay)}, vector2{scalar(bx), scalar(by)}, scalar(r), s0, s1);
        vp::nontrivial(disc >= 0);
        VP_CHECK(n <= 2, "%zu intersections", n);
        if (std::abs(disc) > 1e-4) VP_CHECK(n == (disc > 0 ? 2u : 0u), "%zu intersections, expected %d", n, disc > 0 ? 2 : 0);
        if (disc == 0) VP_CHECK(n == 1, "a tangent line has %zu intersections", n);
        for (size_t i = 0; i < n; ++i) {
            double s = i ? s1 : s0, x = ax + dx * s, y = ay + dy * s;
            VP_CHECK(near(std::sqrt(x * x + y * y), r, 1e-4), "intersection %zu is not on the circle: (%g,%g)", i, x, y);
        }
        if (n == 2) VP_CHECK(s0 < s1, "intersections are not distinct and ordered");
    }
}

VP_SCENARIO(circle_circle_2d) {
    std::vector<double> vs = {-3, -2, -1.5, -1, -0.5, 0, 0.25, 1, 2, 2.5};
    for (double ra : {0.5, 1., 2.}) for (double rb : {0.5, 1., 1.5, 2., 3.}) for (double ax : {0., 1., -0.5}) for (double ay : {0., -2.}) for (double dx : vs) for (double dy : vs) {
        if (!vp::begin()) continue;
        double bx = ax + dx, by = ay + dy;
        vp::describer() = [&] { char b[160]; snprintf(b, sizeof b, "circles (%g,%g) r %g and (%g,%g) r %g", ax, ay, ra, bx, by, rb); return std::string(b); };
        vector2 p{}, q{};
        auto n = intersect_circle_circle(vector2{scalar(ax), scalar(ay)}, scalar(ra), vector2{scalar(bx), scalar(by)}, scalar(rb), p, q);
        double d = std::hypot(dx, dy), lo = std::abs(ra - rb), hi = ra + rb;
        vp::nontrivial(d > lo && d < hi);
        bool same = d == 0 && ra == rb;
        size_t want = same ? 2 : d < lo - 1e-4 || d > hi + 1e-4 ? 0 : d > lo + 1e-4 && d < hi - 1e-4 ? 2 : 9;
        if (want != 9) VP_CHECK(n == want, "%zu intersections, expected %zu", n, want);
        // Touching circles on a common axis: every quantity is exact.
        if (!same && (dx == 0 || dy == 0) && (d == lo || d == hi)) VP_CHECK(n >= 1, "touching circles have %zu intersections", n);
        VP_CHECK(n <= 2, "%zu intersections", n);
        for (size_t i = 0; i < n; ++i) {
            auto &r = i ? q : p;
            VP_CHECK(near(std::hypot(r.x - ax, r.y - ay), ra, 2e-3) && near(std::hypot(r.x - bx, r.y - by), rb, 2e-3), "intersection %zu does not lie on both circles", i);
        }
        if (want == 2 && !same) VP_CHECK(std::hypot(p.x - q.x, p.y - q.y) > 1e-3, "the two intersections coincide");
    }
}

// The pair returned lies on both curves, its distance is the one returned and unit normals come
// with it. The distance is minimal.
VP_SCENARIO(circle_line_3d) {
    auto P = vp::thorough() ? lattice({-1.5, 0, 0.1, 0.5}) : lattice({-1.5, 0, 0.5});
    std::vector<D3> dirs = directions();
    dirs.push_back(unit({1, 0.001, 0})); dirs.push_back(unit({0.001, 1, 0.5}));
    for (auto &q : orientations(vp::thorough())) for (int ax = 0; ax < 3; ++ax) for (double r : {0.3, 1.}) for (auto p : P) for (auto d : dirs) for (double len : {1., 3.}) {
        if (!vp::begin()) continue;
        D3 c{0.25, -0.5, 1}; D3 a = c + p, b = a + d * len;
        circ C = make(c, q, ax, r);
        vp::describer() = [&] { return "circle " + str(q) + " axis " + std::to_string(ax) + " r " + std::to_string(r) + " line " + str(a) + str(b); };
        size_t num = 9; scalar s0 = 0, s1 = 0; vector3 rc0{}, rl0{}, rc1{}, rl1{}, nrm{};
        double d2 = closest_point_circle_line(V(c), q, scalar(r), coordinate_axis(ax), V(a), V(b), num, s0, rc0, rl0, s1, rc1, rl1, nrm);
        auto f = [&](double t) { return line_dist2(C.at(t), a, b - a); };
        VP_CHECK(num == 1 || num == 2, "%zu closest points", num);
        bool parallel = std::abs(dt(d, C.n)) < 1e-6;
        vp::nontrivial(!parallel);
        if (num == 2) VP_CHECK(std::abs(dt(d, C.n)) < 0.1, "two closest points for an oblique line");
        double best = 1e9;
        for (size_t i = 0; i < num; ++i) {
            D3 pc = i ? rc1 : rc0, pl = i ? rl1 : rl0; double s = i ? s1 : s0;
            VP_CHECK(on(C, pc, 2e-3), "point %zu is not on the circle: %s", i, str(pc).c_str());
            VP_CHECK(nm(pl - (a + (b - a) * s)) < 2e-3, "point %zu is not on the line at its parameter", i);
            best = std::min(best, nm(pc - pl));
        }
        VP_CHECK(std::abs(best - std::sqrt(std::max(0., d2))) < 5e-3, "the distance returned, %g, is not that of the points, %g", std::sqrt(d2), best);
        VP_CHECK(near(nm(D3(nrm)), 1, 1e-3), "the normal is not a unit vector");
        if (num == 1) { D3 dir = D3(rl0) - D3(rc0); if (nm(dir) > 0.05) VP_CHECK(nm(cr(unit(dir), D3(nrm))) < 0.05, "the normal %s does not point along the closest points, %s", str(D3(nrm)).c_str(), str(unit(dir)).c_str());
            // Touching or crossing: the direction that separates is perpendicular to both tangents.
            else if (!parallel) { D3 tc = cr(C.n, unit(D3(rc0) - c)); if (nm(cr(tc, d)) > 0.1) VP_CHECK(std::abs(dt(tc, D3(nrm))) < 0.06 && std::abs(dt(d, D3(nrm))) < 0.06, "the normal %s does not separate the circle from the line", str(D3(nrm)).c_str()); } }
        double want = std::sqrt(minimise(f, 120));
        VP_CHECK(best < want + 0.015, "distance %g, the closest points are %g apart", best, want);
    }
}

VP_SCENARIO(circle_circle_3d) {
    std::vector<D3> P = lattice({-1.2, 0, 0.4}); P.push_back({2, 1, 0.3}); P.push_back({0.05, 0, 0});
    auto qas = std::vector<quaternion>{Q(0, 0, 0, 1), Q(1, 2, 3, 4)};
    if (vp::thorough()) { for (auto p : lattice({-0.7, 0.2, 0.9})) P.push_back(p); for (auto q : orientations(1)) qas.push_back(q); }
    for (auto &qa : qas) for (auto &qb0 : orientations(1)) {
        // One case per pair of orientations.
        if (!vp::begin()) continue;
        for (int rel = 0; rel < 2; ++rel) for (int axa = 0; axa < 3; ++axa) for (int axb = 0; axb < 3; ++axb) for (double ra : {0.5, 1.}) for (double rb : {0.5, 1.}) for (auto p : P) {
            ++vp::st().progress;
            auto qb = rel ? qa : qb0;
            D3 c{0.25, -0.5, 1}, off = rel ? rot(qa, p) : p;
            circ A = make(c, qa, axa, ra), B = make(c + off, qb, axb, rb);
            vp::describer() = [&] { return "A " + str(qa) + " axis " + std::to_string(axa) + " r " + std::to_string(ra) + " B " + str(off) + str(qb) + " axis " + std::to_string(axb) + " r " + std::to_string(rb); };
            size_t num = 9; vector3 a0{}, b0{}, a1{}, b1{}, nrm{};
            double d2 = closest_point_circle_circle(V(A.c), qa, scalar(ra), coordinate_axis(axa), V(B.c), qb, scalar(rb), coordinate_axis(axb), num, a0, b0, a1, b1, nrm);
            VP_CHECK(num == 1 || num == 2, "%zu closest points", num);
            double best = 1e9;
            for (size_t i = 0; i < num; ++i) {
                D3 x = i ? a1 : a0, y = i ? b1 : b0;
                VP_CHECK(on(A, x, 5e-3), "point %zu is not on circle A", i);
                VP_CHECK(on(B, y, 5e-3), "point %zu is not on circle B", i);
                double di = nm(x - y);
                best = std::min(best, di);
                VP_CHECK(std::abs(di - std::sqrt(std::max(0., d2))) < 5e-3, "the distance returned, %g, is not that of pair %zu, %g", std::sqrt(d2), i, di);
            }
            VP_CHECK(near(nm(D3(nrm)), 1, 1e-3), "the normal is not a unit vector");
            if (num == 1 && nm(cr(A.n, B.n)) > 1e-3) { D3 dir = D3(a0) - D3(b0); if (nm(dir) > 0.05) VP_CHECK(nm(cr(unit(dir), D3(nrm))) < 0.05, "the normal %s does not point along the closest points, %s", str(D3(nrm)).c_str(), str(unit(dir)).c_str());
                else { D3 ta = cr(A.n, unit(D3(a0) - A.c)), tb = cr(B.n, unit(D3(b0) - B.c)); if (nm(cr(ta, tb)) > 0.1) VP_CHECK(std::abs(dt(ta, D3(nrm))) < 0.06 && std::abs(dt(tb, D3(nrm))) < 0.06, "the normal %s does not separate the circles", str(D3(nrm)).c_str()); } }
            double want = std::sqrt(minimise([&](double t) { return circ_dist2(A, B.at(t)); }, 90));
            bool parallel = nm(cr(A.n, B.n)) < 1e-4;
            if (parallel) { VP_CHECK(best < want + 5e-3, "parallel circles: distance %g, the closest points are %g apart", best, want); continue; }
            vp::nontrivial();
            VP_CHECK(best < want + (0.02), "distance %g, the closest points are %g apart", best, want);
        }
        vp::sample("all circle pairs with orientations " + str(qa) + str(qb0));
    }
}
