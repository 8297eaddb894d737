// Planar polygons: hulls, containment, closest points and support polygons of point clouds.
#include "geo.hpp"
#include "edyn/util/shape_util.hpp"
using namespace edyn;
using namespace geo;

namespace {
struct P2 { double x, y; };
vector2 V2(P2 p) { return {scalar(p.x), scalar(p.y)}; }
P2 D2(const vector2 &v) { return {double(v.x), double(v.y)}; }
double perp(P2 o, P2 a, P2 b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
double dist(P2 a, P2 b) { return std::hypot(a.x - b.x, a.y - b.y); }
std::string str(const std::vector<P2> &ps) { std::string r; char b[64]; for (auto p : ps) { snprintf(b, sizeof b, "(%g, %g)", p.x, p.y); r += b; } return r; }
// Monotone chain, counter-clockwise, no collinear vertices.
std::vector<P2> hull_of(std::vector<P2> p) {
    std::sort(p.begin(), p.end(), [](P2 a, P2 b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    p.erase(std::unique(p.begin(), p.end(), [](P2 a, P2 b) { return a.x == b.x && a.y == b.y; }), p.end());
    if (p.size() < 3) return p;
    std::vector<P2> h(2 * p.size()); size_t k = 0;
    for (size_t i = 0; i < p.size(); ++i) { while (k >= 2 && perp(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    for (size_t i = p.size() - 1, t = k + 1; i > 0; --i) { while (k >= t && perp(h[k - 2], h[k - 1], p[i - 1]) <= 0) --k; h[k++] = p[i - 1]; }
    h.resize(k - 1); return h;
}
double area(const std::vector<P2> &p) { double a = 0; for (size_t i = 1; i + 1 < p.size(); ++i) a += perp(p[0], p[i], p[i + 1]); return a / 2; }
double d_seg(P2 p, P2 a, P2 b) { double l = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), t = l > 0 ? std::min(1., std::max(0., ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / l)) : 0; return dist(p, {a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t}); }

void check_hull(const std::vector<P2> &pts, const std::vector<size_t> &h, double slack) {
    auto want = hull_of(pts);
    VP_CHECK(!h.empty(), "empty hull");
    std::vector<P2> got;
    for (auto i : h) { VP_CHECK(i < pts.size(), "index %zu of %zu points", i, pts.size()); got.push_back(pts[i]); }
    if (want.size() > 1) for (size_t i = 0; i < h.size(); ++i) for (size_t j = i + 1; j < h.size(); ++j)
        VP_CHECK(pts.size() <= 3 || dist(got[i], got[j]) > 0, "the hull visits a point twice");
    if (want.size() > 2 && area(want) < slack * 8) return; // Collinear up to rounding.
    if (want.size() > 2) {
        VP_CHECK(got.size() > 2, "the hull has %zu vertices", got.size());
        VP_CHECK(std::abs(area(got) - area(want)) <= slack * 8, "the hull has area %g instead of %g", area(got), area(want));
        for (size_t i = 0; i < got.size(); ++i) {
            auto a = got[i], b = got[(i + 1) % got.size()];
            VP_CHECK(perp(a, b, got[(i + 2) % got.size()]) >= -slack, "the hull turns clockwise");
            for (auto p : pts) VP_CHECK(perp(a, b, p) >= -slack, "point (%g, %g) is outside the hull", p.x, p.y);
        }
        double turn = 0;
        for (size_t i = 0; i < got.size(); ++i) { auto a = got[i], b = got[(i + 1) % got.size()], c = got[(i + 2) % got.size()]; turn += std::atan2(perp(a, b, c), (b.x - a.x) * (c.x - b.x) + (b.y - a.y) * (c.y - b.y)); }
        VP_CHECK(near(turn, 2 * PI, 1e-3), "the hull does not go around once: %g", turn);
    } else if (want.size() == 2) {
        bool e0 = false, e1 = false;
        for (auto g : got) { e0 = e0 || dist(g, want[0]) < slack; e1 = e1 || dist(g, want[1]) < slack; }
        VP_CHECK(e0 && e1, "the hull of collinear points misses an end");
    }
}
}

VP_SCENARIO(hull_grid) {
    std::vector<P2> g; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) g.push_back({x - 1., y - 0.5});
    for (int n = 1; n <= (vp::thorough() ? 7 : 6); ++n) {
        long total = 1; for (int i = 0; i < n; ++i) total *= 9;
        for (long c = 0; c < total; ++c) {
            if (!vp::begin()) continue;
            std::vector<P2> p; std::vector<vector2> v; long k = c;
            for (int i = 0; i < n; ++i) { p.push_back(g[k % 9]); v.push_back(V2(p.back())); k /= 9; }
            vp::describer() = [&] { return str(p); };
            vp::nontrivial(n > 3);
            check_hull(p, calculate_convex_hull(v, scalar(0.001)), 1e-6);
        }
    }
}
// Subsets of a skewed 4x4 grid: oblique edges and many vertices.
VP_SCENARIO(hull_subsets) {
    std::vector<P2> g; for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) g.push_back({x * 0.7 + y * 0.31 + (x * x) * 0.05, y * 0.9 - x * 0.2});
    for (int rev = 0; rev < 2; ++rev) for (unsigned m = 1; m < (1u << 16); ++m) {
        if (!vp::begin()) continue;
        std::vector<P2> p; std::vector<vector2> v;
        for (int i = 0; i < 16; ++i) { int k = rev ? 15 - i : i; if (m >> k & 1) { v.push_back(V2(g[k])); p.push_back(D2(v.back())); } }
        vp::describer() = [&] { return str(p); };
        vp::nontrivial(p.size() > 3);
        check_hull(p, calculate_convex_hull(v, scalar(0.001)), 0.002);
    }
}

VP_SCENARIO(polygon_queries) {
    // Every convex polygon that is the hull of a subset of a 3x3 grid or of a set of skew points.
    std::vector<std::vector<P2>> polys;
    for (int set = 0; set < 2; ++set) {
        std::vector<P2> g; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) g.push_back(set ? P2{x * 1.1 + y * 0.4 - 1, y * 0.9 - x * 0.35 + x * y * 0.1} : P2{x - 1., y - 0.5});
        for (unsigned m = 1; m < 512; ++m) { std::vector<P2> p; for (int i = 0; i < 9; ++i) if (m >> i & 1) p.push_back(g[i]); auto h = hull_of(p); if (h.size() == p.size() && h.size() >= 2) polys.push_back(h); }
    }
    // Acute ones.
    polys.push_back({{0, 0}, {4, -1}, {4, 1}}); polys.push_back({{0, 0}, {3, 0.25}, {6, 1}}); polys.push_back({{-2, -0.2}, {0, -0.3}, {2, 0}, {0, 0.3}});
    std::vector<P2> q; std::vector<double> c = {-3, -1, -0.6, 0, 0.4, 1, 1.5, 2.25, 5}; for (double x : c) for (double y : c) q.push_back({x, y});
    for (auto &poly : polys) for (size_t start = 0; start < poly.size(); ++start) {
        if (!vp::begin()) continue;
        std::vector<vector2> v, padded = {vector2{50, 50}, vector2{-50, 7}}; std::vector<size_t> idx; std::vector<P2> pd;
        for (size_t i = 0; i < poly.size(); ++i) { v.push_back(V2(poly[(start + i) % poly.size()])); pd.push_back(D2(v.back())); }
        for (size_t i = 0; i < v.size(); ++i) padded.push_back(v[v.size() - 1 - i]);
        for (size_t i = 0; i < v.size(); ++i) idx.push_back(padded.size() - 1 - i);
        auto qs = q; for (auto p : pd) qs.push_back(p);
        // Points straight off the vertices, along the normals of their edges.
        for (size_t i = 0; i < pd.size(); ++i) { auto a = pd[i], b = pd[(i + 1) % pd.size()]; double l = dist(a, b); for (P2 e : {a, b, P2{(a.x + b.x) / 2, (a.y + b.y) / 2}}) for (double s : {-0.1, 0.5}) qs.push_back({e.x + (b.y - a.y) * s / l, e.y - (b.x - a.x) * s / l}); }
        for (auto p0 : qs) {
            vector2 pf = V2(p0); P2 p = D2(pf);
            vp::describer() = [&] { return str(pd) + " point " + str({p}); };
            double m = 1e9, d = 1e9;
            for (size_t i = 0; i < pd.size(); ++i) { auto a = pd[i], b = pd[(i + 1) % pd.size()]; m = std::min(m, perp(a, b, p) / dist(a, b)); d = std::min(d, d_seg(p, a, b)); }
            bool in = pd.size() > 2 && m > 0, band = std::abs(pd.size() > 2 ? m : d) < 1e-5;
            if (pd.size() > 2 && !band) VP_CHECK(point_inside_convex_polygon(v, pf) == in, "point_inside_convex_polygon: the point is %s", in ? "inside" : "outside");
            vector2 cl{77, 77}; bool out = closest_point_convex_polygon(padded, idx, pf, cl);
            vp::nontrivial(!in);
            if (!band) VP_CHECK(out == !in, "closest_point_convex_polygon returns %d for a point %s", out, in ? "inside" : "outside");
            if (out) {
                VP_CHECK(std::abs(dist(D2(cl), p) - d) < 1e-4 * (1 + d), "closest point (%g, %g) is %g away instead of %g", double(cl.x), double(cl.y), dist(D2(cl), p), d);
                double on = 1e9; for (size_t i = 0; i < pd.size(); ++i) on = std::min(on, d_seg(D2(cl), pd[i], pd[(i + 1) % pd.size()]));
                VP_CHECK(on < 1e-4, "the closest point is not on the boundary");
            }
            support_polygon sp{}; sp.plane_vertices = padded; sp.hull = idx; vector2 c2{77, 77};
            VP_CHECK(closest_point_polygon(sp, pf, c2) == out && (!out || (c2.x == cl.x && c2.y == cl.y)), "closest_point_polygon differs from closest_point_convex_polygon");
        }
    }
}

VP_SCENARIO(triangle_winding) {
    std::vector<P2> g; for (double x : {-1., 0., 0.5, 2.}) for (double y : {-1., 0.25, 1.}) g.push_back({x, y});
    for (auto a : g) for (auto b : g) for (auto c : g) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return str({a, b, c}); };
        double w = perp(a, b, c); vp::nontrivial(w != 0);
        VP_CHECK(is_triangle_ccw(V2(a), V2(b), V2(c)) == (w > 0), "is_triangle_ccw is not %d", w > 0);
        vector2 x = V2(a), y = V2(b), z = V2(c); bool sorted = sort_triangle_ccw(x, y, z);
        VP_CHECK(sorted == !(w > 0), "sort_triangle_ccw returns %d", sorted);
        if (w) VP_CHECK(perp(D2(x), D2(y), D2(z)) == std::abs(w), "sort_triangle_ccw does not leave the triangle counter-clockwise");
    }
}

VP_SCENARIO(support_polygons) {
    // Point clouds: boxes, prisms, tetrahedra, single points; all directions; both sides.
    std::vector<std::vector<D3>> clouds = {lattice({-1, 1}), lattice({-0.5, 2}, {0, 1}, {-1, 0}), {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0.5, 0.5, 0.5}}, lattice({-1, 0, 1}, {-1, 0, 1}, {0})};
    std::vector<D3> hex; for (int i = 0; i < 6; ++i) for (double y : {-1., 1.}) hex.push_back({std::cos(i * PI / 3), y, std::sin(i * PI / 3)}); clouds.push_back(hex);
    for (auto &cl : clouds) for (auto d : directions()) for (D3 off : {D3{0, 0, 0}, D3{3, -1, 0.5}}) for (int side = 0; side < 2; ++side) for (double tol : {1e-3, 0.3}) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { std::string s = "cloud of " + std::to_string(cl.size()) + " dir " + geo::str(d) + " offset " + geo::str(off); return s + (side ? " positive" : " negative"); };
        std::vector<vector3> pts; for (auto p : cl) pts.push_back(V(p));
        double best = -1e9; for (auto &p : pts) best = std::max(best, dt(D3(p), d));
        VP_CHECK(near(point_cloud_support_projection(pts, V(d)), best, 1e-6), "support projection %g instead of %g", double(point_cloud_support_projection(pts, V(d))), best);
        vector3 sp = point_cloud_support_point(pts, V(d));
        VP_CHECK(near(dt(D3(sp), d), best, 1e-6) && std::find(pts.begin(), pts.end(), sp) != pts.end(), "support point %s", geo::str(D3(sp)).c_str());
        VP_CHECK(near(point_cloud_support_projection(pts.begin() + pts.size() / 2, pts.end(), V(d)), [&] { double b = -1e9; for (size_t i = pts.size() / 2; i < pts.size(); ++i) b = std::max(b, dt(D3(pts[i]), d)); return b; }(), 1e-6), "support projection of a range");
        // Positive side: the direction points towards the cloud, whose lowest points count.
        double proj = side ? 1e9 : -1e9;
        for (auto &p : pts) { double x = dt(D3(p) + off, d); proj = side ? std::min(proj, x) : std::max(proj, x); }
        auto poly = point_cloud_support_polygon(pts.begin(), pts.end(), V(off), V(d), scalar(proj), side, scalar(tol));
        size_t want = 0, sure = 0;
        for (auto &p : pts) { double x = side ? dt(D3(p) + off, d) - proj : proj - dt(D3(p) + off, d); want += x < tol + 1e-4; sure += x < tol - 1e-4; }
        vp::nontrivial(sure > 2);
        VP_CHECK(poly.vertices.size() <= want && poly.vertices.size() >= sure && poly.plane_vertices.size() == poly.vertices.size(), "%zu support vertices instead of %zu", poly.vertices.size(), sure);
        VP_CHECK(near(D3(poly.origin), d * proj, 1e-5), "the origin is not on the support plane");
        std::vector<P2> pp;
        for (size_t i = 0; i < poly.vertices.size(); ++i) {
            D3 w = poly.vertices[i]; bool found = false; for (auto &p : pts) found = found || nm(D3(p) + off - w) < 1e-5;
            VP_CHECK(found, "vertex %s is not a point of the cloud", geo::str(w).c_str());
            double x = side ? dt(w, d) - proj : proj - dt(w, d); VP_CHECK(x < tol + 1e-4, "vertex %s is not in the support region", geo::str(w).c_str());
            // Back from the plane.
            auto q = poly.plane_vertices[i]; D3 b = D3(poly.origin) + D3(poly.basis.column(0)) * double(q.x) + D3(poly.basis.column(2)) * double(q.y), diff = w - b;
            VP_CHECK(nm(diff - d * dt(diff, d)) < 1e-4, "plane vertex %zu does not correspond to its vertex", i);
            pp.push_back(D2(q));
        }
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VP_CHECK(near(dt(D3(poly.basis.column(i)), D3(poly.basis.column(j))), i == j, 1e-5), "the basis is not orthonormal");
        VP_CHECK(near(D3(poly.basis.column(1)), d, 1e-6), "the basis does not contain the direction");
        VP_CHECK(!poly.hull.empty() && poly.hull.size() <= poly.vertices.size() + (poly.vertices.size() == 1 ? 0 : 0), "hull of %zu indices", poly.hull.size());
        double s = 1e-3; std::vector<P2> hp; for (auto i : poly.hull) { VP_CHECK(i < pp.size(), "hull index"); hp.push_back(pp[i]); }
        if (hp.size() > 2) for (size_t i = 0; i < hp.size(); ++i) for (auto p : pp) VP_CHECK(perp(hp[i], hp[(i + 1) % hp.size()], p) > -2 * s, "a support vertex lies outside the hull");
        if (hull_of(pp).size() > 2 && std::abs(area(hull_of(pp))) > 0.1) VP_CHECK(std::abs(area(hp) - area(hull_of(pp))) < 0.02, "hull area %g instead of %g", area(hp), area(hull_of(pp)));
    }
}
