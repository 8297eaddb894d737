// Moments of inertia against the second moments of the solids, in double precision.
#include "geo.hpp"
#include "solids.hpp"
#include "edyn/dynamics/moment_of_inertia.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include "edyn/util/shape_util.hpp"
#include "edyn/shapes/shapes.hpp"
#include <memory>
using namespace edyn;
using namespace geo;

namespace {
struct M3 { double a[3][3] = {}; };
M3 operator+(M3 x, const M3 &y) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) x.a[i][j] += y.a[i][j]; return x; }
M3 scaled(M3 x, double s) { for (auto &r : x.a) for (auto &e : r) e *= s; return x; }
M3 diag(double x, double y, double z) { M3 m; m.a[0][0] = x; m.a[1][1] = y; m.a[2][2] = z; return m; }
M3 outer(D3 u, D3 v) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] = u[i] * v[j]; return m; }
// Second moment matrix in a rotated frame and about another point (S is about the centroid).
M3 turned(const M3 &s, const quaternion &q) {
    D3 c[3]; for (int k = 0; k < 3; ++k) c[k] = rot(q, axis_dir(k));
    M3 r; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) r = r + scaled(outer(c[k], c[l]), s.a[k][l]);
    return r;
}
M3 inertia(const M3 &s) { double t = s.a[0][0] + s.a[1][1] + s.a[2][2]; M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = (i == j ? t : 0) - s.a[i][j]; return r; }

// Per unit mass, about the centroid.
M3 s_box(double a, double b, double c) { return diag(a * a / 3, b * b / 3, c * c / 3); }
M3 s_sphere(double r) { return diag(r * r / 5, r * r / 5, r * r / 5); }
M3 axial(int ax, double along, double across) { M3 m = diag(across, across, across); m.a[ax][ax] = along; return m; }
M3 s_cyl(double r, double h, int ax) { return axial(ax, h * h / 3, r * r / 4); }
// Slices of the capsule, integrated exactly (polynomials of degree 4) with three Gauss points.
M3 s_cap(double r, double h, int ax) {
    const double g = std::sqrt(0.6), x[3] = {-g, 0, g}, w[3] = {5. / 9, 8. / 9, 5. / 9};
    double vol = 0, along = 0, across = 0;
    for (int part = 0; part < 3; ++part) {
        double lo = part == 0 ? -h - r : part == 1 ? -h : h, hi = part == 0 ? -h : part == 1 ? h : h + r;
        for (int k = 0; k < 3; ++k) {
            double z = (lo + hi) / 2 + x[k] * (hi - lo) / 2, d = std::max(0., std::abs(z) - h), R2 = part == 1 ? r * r : r * r - d * d, W = w[k] * (hi - lo) / 2;
            vol += W * PI * R2; along += W * PI * R2 * z * z; across += W * PI * R2 * R2 / 4;
        }
    }
    return axial(ax, along / vol, across / vol);
}
// Tetrahedra from the centroid.
M3 s_poly(const solid &s, const std::vector<D3> &v, double &vol) {
    D3 c; moments(s, v, vol, c);
    M3 S;
    for (auto &f : s.f) for (size_t k = 1; k + 1 < f.size(); ++k) {
        D3 p[3] = {v[f[0]] - c, v[f[k]] - c, v[f[k + 1]] - c}; double t = dt(p[0], cr(p[1], p[2])) / 6; D3 sum = p[0] + p[1] + p[2];
        M3 m = outer(sum, sum); for (auto q : p) m = m + outer(q, q);
        S = S + scaled(m, t / 20);
    }
    return scaled(S, 1 / vol);
}
void compare(const matrix3x3 &got, const M3 &want, double tol, const char *what) {
    double n = 0; for (auto &r : want.a) for (double e : r) n = std::max(n, std::abs(e));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        VP_CHECK(std::abs(double(got[size_t(i)][size_t(j)]) - want.a[i][j]) <= tol * n, "inertia of a %s: element %d,%d is %g instead of %g", what, i, j, double(got[size_t(i)][size_t(j)]), want.a[i][j]);
}
std::shared_ptr<convex_mesh> mesh(const solid &s, const std::vector<D3> &v, size_t shift = 0) {
    auto m = std::make_shared<convex_mesh>();
    for (auto x : v) m->vertices.push_back(V(x));
    for (auto &f : s.f) { m->faces.push_back(uint32_t(m->indices.size())); m->faces.push_back(uint32_t(f.size())); for (size_t k = 0; k < f.size(); ++k) m->indices.push_back(uint32_t(f[(k + shift) % f.size()])); }
    return m;
}
const std::vector<double> S = {0.05, 0.25, 0.5, 1, 1.75, 3};
}

VP_SCENARIO(primitives) {
    for (double a : S) for (double b : S) for (double c : S) for (int ax = 0; ax < 3; ++ax) for (double m : {0.1, 1., 7., 1000.}) {
        if (!vp::begin()) continue;
        vp::describe("sizes %g %g %g axis %d mass %g", a, b, c, ax, m); vp::nontrivial(a != b && b != c);
        auto A = coordinate_axis(ax);
        compare(moment_of_inertia(box_shape{V({a, b, c})}, scalar(m)), scaled(inertia(s_box(a, b, c)), m), 1e-5, "box");
        compare(moment_of_inertia(sphere_shape{scalar(a)}, scalar(m)), scaled(inertia(s_sphere(a)), m), 1e-5, "sphere");
        compare(moment_of_inertia(cylinder_shape{scalar(a), scalar(b), A}, scalar(m)), scaled(inertia(s_cyl(a, b, ax)), m), 1e-5, "cylinder");
        compare(moment_of_inertia(capsule_shape{scalar(a), scalar(b), A}, scalar(m)), scaled(inertia(s_cap(a, b, ax)), m), 1e-5, "capsule");
        shapes_variant_t var{capsule_shape{scalar(a), scalar(b), A}};
        compare(moment_of_inertia(var, scalar(m)), scaled(inertia(s_cap(a, b, ax)), m), 1e-5, "capsule in a variant");
        // Hollow ones: difference of two solids of the same density.
        double ri = a, ro = a + b, mi = m * ri * ri / (ro * ro - ri * ri), mo = m + mi;
        auto hc = diagonal_matrix(moment_of_inertia_hollow_cylinder(scalar(m), scalar(2 * c), scalar(ri), scalar(ro), A));
        compare(hc, scaled(inertia(s_cyl(ro, c, ax)), mo) + scaled(inertia(s_cyl(ri, c, ax)), -mi), 1e-4, "hollow cylinder");
        VP_CHECK(near(double(moment_of_inertia_hollow_sphere(scalar(m), scalar(a))), 2. / 3 * m * a * a, 1e-5), "inertia of a hollow sphere");
        // Moved away from the centroid.
        D3 o{a, -b, c};
        M3 s = s_box(c, a, b);
        compare(shift_moment_of_inertia(moment_of_inertia(box_shape{V({c, a, b})}, scalar(m)), scalar(m), V(o)), scaled(inertia(s + outer(o, o)), m), 1e-5, "box about another point");
    }
}

VP_SCENARIO(polyhedra) {
    for (auto &p : solids()) for (auto &q : orientations(1)) for (size_t shift = 0; shift < 3; ++shift) for (D3 sc : {D3{1, 1, 1}, D3{0.25, 0.25, 0.25}, D3{1, 2, 0.5}, D3{3, 0.3, 1}}) for (double m : {1., 12.}) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return std::string(p.name) + geo::str(q) + " scale" + geo::str(sc) + " shift " + std::to_string(shift); };
        std::vector<D3> v; for (auto x : p.v) v.push_back(rot(q, {x.x * sc.x, x.y * sc.y, x.z * sc.z}) + D3{1, 2, -1});
        double vol; M3 s = s_poly(p, v, vol);
        vp::nontrivial(std::abs(s.a[0][1]) > 1e-3);
        auto me = mesh(p, v, shift);
        me->initialize();
        compare(moment_of_inertia(polyhedron_shape{me}, scalar(m)), scaled(inertia(s), m), 2e-4, "polyhedron");
    }
    vp::describer() = nullptr;
}

// Compounds of every pair and triple of five solids in every pose.
VP_SCENARIO(compounds) {
    auto so = solids();
    auto qs = orientations(1);
    const D3 ps[] = {{0, 0, 0}, {2, 0, 0}, {-1, 0.5, 3}};
    for (int ka = 0; ka < 5; ++ka) for (int kb = ka; kb < 5; ++kb) for (int kc = -1; kc < 5; ++kc) for (auto &qa : qs) for (size_t ib = 0; ib < qs.size(); ib += 5) for (int pa = 0; pa < 3; ++pa) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return "kinds " + std::to_string(ka) + " " + std::to_string(kb) + " " + std::to_string(kc) + geo::str(qa) + geo::str(qs[ib]) + geo::str(ps[pa]); };
        compound_shape k; std::vector<std::pair<double, M3>> parts; double total = 0;
        auto add = [&](int kind, const quaternion &q, D3 p) {
            double vol = 1; M3 s;
            switch (kind) {
            case 0: k.add_shape(box_shape{V({1, 0.5, 0.25})}, V(p), q); s = s_box(1, 0.5, 0.25); vol = 8 * 0.125; break;
            case 1: k.add_shape(sphere_shape{scalar(0.75)}, V(p), q); s = s_sphere(0.75); vol = 4. / 3 * PI * 0.75 * 0.75 * 0.75; break;
            case 2: k.add_shape(cylinder_shape{scalar(0.5), scalar(1.5), coordinate_axis::z}, V(p), q); s = s_cyl(0.5, 1.5, 2); vol = PI * 0.25 * 3; break;
            case 3: k.add_shape(capsule_shape{scalar(0.4), scalar(1), coordinate_axis::y}, V(p), q); s = s_cap(0.4, 1, 1); vol = PI * 0.16 * 2 + 4. / 3 * PI * 0.064; break;
            default: { auto me = mesh(so[4], so[4].v); me->initialize(); k.add_shape(polyhedron_shape{me}, V(p), q); s = s_poly(so[4], so[4].v, vol); } }
            parts.push_back({vol, turned(s, q) + outer(p, p)}); total += vol;
        };
        add(ka, qa, ps[pa]); add(kb, qs[ib], ps[(pa + 1) % 3]); if (kc >= 0) add(kc, qs[(ib + 7) % qs.size()], {-3, 1, 0.5});
        M3 want; for (auto &p : parts) want = want + scaled(inertia(p.second), 5 * p.first / total);
        compare(moment_of_inertia(k, scalar(5)), want, 1e-4, "compound");
    }
    vp::describer() = nullptr;
}
