// Contact point selection: all sequences of points offered to a set of at most four.
#include "geo.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/config/constants.hpp"
using namespace edyn;
using namespace geo;

namespace {
double score(D3 a, D3 b, D3 c, D3 d) { return n2(cr(b - a, c - a)) + n2(cr(b - a, d - a)) + n2(cr(c - a, d - a)) + n2(cr(c - b, d - b)); }

struct set4 { std::array<vector3, 4> p{}; size_t n = 0; };

std::string show(const set4 &s) { std::string r = "{"; for (size_t i = 0; i < s.n; ++i) r += geo::str(D3(s.p[i])); return r + "}"; }

void offer(set4 &s, vector3 x) {
    const double merge = contact_merging_threshold;
    auto before = s;
    auto res = insertion_point_index(s.p, s.n, x);
    D3 X = x; D3 P[4]; for (size_t i = 0; i < 4; ++i) P[i] = before.p[i];
    for (size_t i = 0; i < 4; ++i) VP_CHECK(s.p[i] == before.p[i], "the points given were changed");
    using T = point_insertion_type;
    auto n = before.n;
    if (res.type == T::append) { VP_CHECK(res.index == n && s.n == n + 1 && s.n <= 4, "append at %zu of %zu points", res.index, n); }
    else VP_CHECK(s.n == n, "the number of points changed from %zu to %zu without a new point", n, s.n);
    if (res.type == T::none) VP_CHECK(res.index >= 4, "no insertion comes with index %zu", res.index);
    if (res.type == T::similar || res.type == T::replace) VP_CHECK(res.index < n, "replaces point %zu of %zu", res.index, n);
    auto sim = [&](size_t i) { double d = nm(P[i] - X); if (std::abs(d - merge) > 1e-5) VP_CHECK((res.type == T::similar) == (d < merge), "replacing point %zu, %g away, is reported as %s", i, d, res.type == T::similar ? "similar" : "replace"); };
    if (n == 0) VP_CHECK(res.type == T::append, "the first point is not taken");
    else if (n == 1) {
        double d = nm(P[0] - X);
        if (d > merge + 1e-5) VP_CHECK(res.type == T::append, "a second point %g away is not taken", d);
        if (d < merge - 1e-5) VP_CHECK(res.type == T::similar && res.index == 0, "a second point %g away is not merged with the first", d);
    } else if (n == 2) {
        double c = n2(cr(X - P[0], X - P[1]));
        if (c > 1e-6) VP_CHECK(res.type == T::append, "a third point off the line is not taken");
        else if (c < 1e-8) {
            VP_CHECK(res.type != T::append, "a third point on the line is appended");
            double best = std::max(nm(P[0] - P[1]), std::max(nm(P[0] - X), nm(P[1] - X))), got = nm(P[0] - P[1]);
            if (res.type != T::none) { got = nm(P[1 - res.index] - X); sim(res.index); }
            VP_CHECK(got > best - 1e-4, "the two points kept are %g apart instead of %g", got, best);
        }
    } else if (n == 3) {
        D3 nn = cr(P[1] - P[0], P[2] - P[0]);
        if (n2(nn) > 1e-6) {
            D3 u = unit(nn); double h = std::abs(dt(X - P[0], u)), m = 1e9;
            for (int i = 0; i < 3; ++i) { D3 e = P[(i + 1) % 3] - P[i]; m = std::min(m, dt(cr(u, unit(e)), X - P[i])); }
            if (h < 1e-8 && m > 1e-4) VP_CHECK(res.type == T::none, "a point inside the triangle of contacts is taken");
            if (h > 1e-4 || m < -1e-3) VP_CHECK(res.type == T::append, "a fourth point outside the triangle of contacts is not taken");
        } else if (n2(nn) < 1e-10) {
            // All on one line: the ends have to stay.
            // Rounding may make an oblique line look like a thin triangle.
            if (n2(nn) > 0 && res.type != T::replace) return void(res.type == T::append ? (s.p[res.index] = x) : x);
            VP_CHECK(res.type == T::replace, "a fourth point does not replace one of three collinear points");
            double best = std::max(nm(P[0] - P[1]), std::max(nm(P[0] - P[2]), nm(P[1] - P[2])));
            double got = nm(P[(res.index + 1) % 3] - P[(res.index + 2) % 3]);
            VP_CHECK(got > best - 1e-4, "of three collinear points an end is replaced: the others are %g apart instead of %g", got, best);
        }
    } else {
        double best = score(P[0], P[1], P[2], P[3]), old = best, opt[4];
        for (int i = 0; i < 4; ++i) { D3 q[4] = {P[0], P[1], P[2], P[3]}; q[i] = X; opt[i] = score(q[0], q[1], q[2], q[3]); best = std::max(best, opt[i]); }
        VP_CHECK(res.type != T::append, "a fifth point is appended");
        double got = res.type == T::none ? old : opt[res.index];
        VP_CHECK(got >= best - 1e-5 * (1 + best), "the set kept has score %g, the best has %g (before: %g)", got, best, old);
        if (res.type != T::none) { VP_CHECK(got > old - 1e-5 * (1 + best), "the set gets worse"); sim(res.index); }
    }
    vp::transitions();
    if (res.type != T::none) { vp::nontrivial(); s.p[res.index] = x; }
}

void explore(const std::vector<vector3> &alphabet, set4 s, std::vector<size_t> &hist, int depth) {
    for (size_t i = 0; i < alphabet.size(); ++i) {
        hist.push_back(i);
        if (hist.size() == 2 && !vp::begin()) { hist.pop_back(); continue; }
        auto t = s;
        vp::describer() = [&] { return "points " + show(s) + " offered " + geo::str(D3(alphabet[i])); };
        offer(t, alphabet[i]);
        vp::states();
        if (depth > 1) explore(alphabet, t, hist, depth - 1);
        hist.pop_back();
    }
}
void run(std::vector<D3> pts, int depth) {
    std::vector<vector3> a; for (auto p : pts) a.push_back(V(p));
    std::vector<size_t> h; explore(a, {}, h, depth);
}
}

VP_SCENARIO(plane_patch) { run({{0, 0, 0}, {1, 0, 0}, {0, 0, 1}, {1, 0, 1}, {0.5, 0, 0.5}, {0.5, 0, 0}, {0.25, 0, 0.25}, {1.5, 0, -0.5}, {0.004, 0, 0.003}, {0.5, 0.25, 0.5}}, vp::thorough() ? 7 : 6); }
VP_SCENARIO(line_of_points) { run({{0, 0, 0}, {0.1, 0, 0}, {0.2, 0, 0}, {0.15, 0, 0}, {0.5, 0, 0}, {-0.25, 0, 0}, {2, 0, 0}, {0.105, 0, 0}, {0.2, 0, 0.1}}, vp::thorough() ? 7 : 6); }
VP_SCENARIO(oblique_patch) { run({{0.5, 0.25, -0.3}, {0.6, 0.35, 0}, {0.7, 0.45, 0.3}, {-1, 0.2, 0.5}, {-1.005, 0.2, 0.5}, {3, -2, 1}, {0.1, 0.1, 0.1}, {0.5, 0.25, 0.7}}, vp::thorough() ? 7 : 6); }
// Three collinear points in every order, which a sequence of insertions does not produce but a
// moving contact set does, then a fourth.
VP_SCENARIO(collinear_triples) {
    std::vector<double> t = {0, 0.005, 0.1, 0.4, 1, -0.5, 3};
    for (D3 dir : {D3{1, 0, 0}, D3{0, 0, 1}, unit({1, 2, 3})}) for (double a : t) for (double b : t) for (double c : t) for (D3 x : {D3{0.3, 0.3, 0}, D3{0.2, 0, 0}, D3{5, 5, 5}}) {
        if (!vp::begin()) continue;
        set4 s; s.n = 3; s.p[0] = V(dir * a); s.p[1] = V(dir * b); s.p[2] = V(dir * c);
        vp::describer() = [&] { return "points " + show(s) + " offered " + geo::str(x); };
        vp::states();
        offer(s, V(x));
    }
}
