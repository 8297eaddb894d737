// Pairs of convex shapes and planes against a separation oracle built on support functions in double precision.
#include "solids.hpp"
#include "edyn/math/transform.hpp"
#include "edyn/util/aabb_util.hpp"
#include "edyn/collision/collide.hpp"
#include "edyn/shapes/convex_mesh.hpp"
#include "edyn/shapes/compound_shape.hpp"
#include "edyn/shapes/mesh_shape.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/util/aabb_util.hpp"
#include <functional>
#include <memory>
#include <variant>
using namespace edyn;
using namespace geo;

namespace {
typedef std::variant<sphere_shape, box_shape, cylinder_shape, capsule_shape, polyhedron_shape, plane_shape> any_shape;
const char *KIND[] = {"sphere", "box", "cylinder", "capsule", "polyhedron", "plane"};

struct obj {
    any_shape shape; std::string name;
    std::vector<D3> v; const solid *s = nullptr; std::shared_ptr<convex_mesh> mesh;
    int kind() const { return int(shape.index()); }
    // Furthest reach along a local direction.
    double h(D3 d) const {
        switch (kind()) {
            case 0: return nm(d) * std::get<0>(shape).radius;
            case 1: { auto e = std::get<1>(shape).half_extents; return std::abs(d.x) * e.x + std::abs(d.y) * e.y + std::abs(d.z) * e.z; }
            case 2: { auto &c = std::get<2>(shape); size_t a = size_t(c.axis); D3 r = d; r[a] = 0; return std::abs(d[a]) * c.half_length + nm(r) * c.radius; }
            case 3: { auto &c = std::get<3>(shape); return std::abs(d[size_t(c.axis)]) * c.half_length + nm(d) * c.radius; }
            case 4: { double m = -1e300; for (auto &x : v) m = std::max(m, dt(x, d)); return m; }
        }
        return 0;
    }
    // A point of the shape furthest along a local direction.
    D3 sp(D3 d) const {
        switch (kind()) {
            case 0: return nm(d) > 0 ? unit(d) * std::get<0>(shape).radius : D3{};
            case 1: { auto e = std::get<1>(shape).half_extents; return {d.x > 0 ? e.x : -e.x, d.y > 0 ? e.y : -e.y, d.z > 0 ? e.z : -e.z}; }
            case 2: { auto &c = std::get<2>(shape); size_t a = size_t(c.axis); D3 r = d; r[a] = 0; D3 o = nm(r) > 0 ? unit(r) * c.radius : D3{}; o[a] = d[a] > 0 ? c.half_length : -c.half_length; return o; }
            case 3: { auto &c = std::get<3>(shape); size_t a = size_t(c.axis); D3 o = nm(d) > 0 ? unit(d) * c.radius : D3{}; o[a] += d[a] > 0 ? c.half_length : -c.half_length; return o; }
            case 4: { double m = -1e300; D3 o; for (auto &x : v) if (dt(x, d) > m) { m = dt(x, d); o = x; } return o; }
        }
        return {};
    }
    // Signed distance of a local point to the surface; inside it is the depth below the nearest face.
    double surface(D3 p) const {
        switch (kind()) {
            case 0: return nm(p) - std::get<0>(shape).radius;
            case 1: { auto e = std::get<1>(shape).half_extents; D3 q{std::abs(p.x) - e.x, std::abs(p.y) - e.y, std::abs(p.z) - e.z}; D3 o{std::max(q.x, 0.), std::max(q.y, 0.), std::max(q.z, 0.)}; return n2(o) > 0 ? nm(o) : std::max(q.x, std::max(q.y, q.z)); }
            case 2: { auto &c = std::get<2>(shape); size_t a = size_t(c.axis); D3 r = p; r[a] = 0; double x = nm(r) - c.radius, y = std::abs(p[a]) - c.half_length; return x > 0 && y > 0 ? std::hypot(x, y) : std::max(x, y); }
            case 3: { auto &c = std::get<3>(shape); size_t a = size_t(c.axis); D3 q = p; double t = std::min(double(c.half_length), std::max(-double(c.half_length), p[a])); q[a] -= t; return nm(q) - c.radius; }
            case 4: { double m = -1e300; for (auto &f : s->f) { D3 n; for (size_t k = 1; k + 1 < f.size(); ++k) n = n + cr(v[f[k]] - v[f[0]], v[f[k + 1]] - v[f[0]]); m = std::max(m, dt(p - v[f[0]], unit(n))); } return m; }
            case 5: { auto &c = std::get<5>(shape); return dt(p, D3(c.normal)) - c.constant; }
        }
        return 0;
    }
    // Directions along which the shape may be separated best.
    std::vector<D3> faces() const {
        std::vector<D3> r;
        if (kind() == 1) for (int k = 0; k < 3; ++k) r.push_back(axis_dir(k));
        if (kind() == 2) r.push_back(axis_dir(int(std::get<2>(shape).axis)));
        if (kind() == 4) for (auto &f : s->f) r.push_back(unit(cr(v[f[1]] - v[f[0]], v[f[2]] - v[f[0]])));
        return r;
    }
    std::vector<D3> edges() const {
        std::vector<D3> r;
        if (kind() == 1) for (int k = 0; k < 3; ++k) r.push_back(axis_dir(k));
        if (kind() == 2) r.push_back(axis_dir(int(std::get<2>(shape).axis)));
        if (kind() == 3) r.push_back(axis_dir(int(std::get<3>(shape).axis)));
        if (kind() == 4) for (auto &f : s->f) for (size_t k = 0; k < f.size(); ++k) if (f[k] < f[(k + 1) % f.size()]) r.push_back(unit(v[f[(k + 1) % f.size()]] - v[f[k]]));
        return r;
    }
};
const std::vector<solid> &all_solids() { static auto s = solids(); return s; }
std::vector<obj> make(int kind) {
    std::vector<obj> r;
    if (kind == 0) for (double a : {0.25, 1.}) r.push_back({sphere_shape{scalar(a)}, "sphere " + std::to_string(a)});
    if (kind == 1) for (D3 h : {D3{1, 0.5, 0.25}, D3{0.5, 0.5, 0.5}}) r.push_back({box_shape{V(h)}, "box " + str(h)});
    for (int ax = 0; ax < 3; ++ax) for (D3 h : {D3{0.5, 1, 0}, D3{1, 0.25, 0}}) {
        if (ax == 1 && h.x == 1) continue;
        auto A = coordinate_axis(ax); auto n = " axis " + std::to_string(ax) + " " + str(h);
        if (kind == 2) r.push_back({cylinder_shape{scalar(h.x), scalar(h.y), A}, "cylinder" + n});
        if (kind == 3) r.push_back({capsule_shape{scalar(h.x * 0.6), scalar(h.y), A}, "capsule" + n});
    }
    if (kind == 4) for (auto &p : all_solids()) {
        auto m = std::make_shared<convex_mesh>();
        D3 c; for (auto x : p.v) c = c + x / double(p.v.size());
        for (auto x : p.v) m->vertices.push_back(V(x - c));
        for (auto &f : p.f) { m->faces.push_back(uint32_t(m->indices.size())); m->faces.push_back(uint32_t(f.size())); for (auto i : f) m->indices.push_back(uint32_t(i)); }
        m->initialize();
        obj o{polyhedron_shape{m}, std::string("polyhedron ") + p.name}; o.s = &p; o.mesh = m; for (auto &x : m->vertices) o.v.push_back(x); r.push_back(o);
    }
    if (kind == 5) for (auto n : {D3{0, 1, 0}, unit({1, 2, -3})}) r.push_back({plane_shape{V(n), scalar(0.5)}, "plane " + str(n)});
    return r;
}

struct pair_world {
    const obj &A, &B; D3 pa, pb; quaternion qa, qb;
    // Pairs with the rim of a cylinder are solved approximately.
    bool rim() const { return (A.kind() == 2 && B.kind() != 0) || (B.kind() == 2 && A.kind() != 0); }
    bool incomplete() const { return rim() && A.kind() != 1 && B.kind() != 1; }
    // Gap along a direction that points from B towards A.
    double sep(D3 n) const {
        double a = dt(pa, n) - A.h(unrot(qa, -n));
        double b = dt(pb, n) + B.h(unrot(qb, n));
        return a - b;
    }
    // Distance of two points of the shapes that are as close as an iterative search gets: an upper bound of the gap.
    double reach() const {
        D3 v = pa - pb;
        for (int i = 0; i < 2000; ++i) {
            if (nm(v) < 1e-4) break;
            D3 w = pa + rot(qa, A.sp(unrot(qa, -v))) - pb - rot(qb, B.sp(unrot(qb, v)));
            D3 e = w - v; double l = n2(e);
            if (l < 1e-18) break;
            double t = std::min(1., std::max(0., -dt(v, e) / l));
            if (t < 1e-9) break;
            v = v + e * t;
        }
        return nm(v);
    }
    // Greatest gap over all directions: the distance, or minus the depth of penetration.
    double best(D3 &dir) const {
        std::vector<D3> c = directions();
        for (auto f : A.faces()) { c.push_back(rot(qa, f)); c.push_back(-rot(qa, f)); }
        for (auto f : B.faces()) { c.push_back(rot(qb, f)); c.push_back(-rot(qb, f)); }
        for (auto e : A.edges()) for (auto f : B.edges()) { D3 x = cr(rot(qa, e), rot(qb, f)); if (nm(x) > 1e-3) { c.push_back(unit(x)); c.push_back(-unit(x)); } }
        if (nm(pa - pb) > 1e-6) c.push_back(unit(pa - pb));
        std::vector<std::pair<double, D3>> s; for (auto d : c) s.push_back({sep(d), d});
        std::sort(s.begin(), s.end(), [](auto &x, auto &y) { return x.first > y.first; });
        double m = s[0].first; dir = s[0].second;
        // Refine the most promising ones.
        for (size_t i = 0; i < s.size() && i < 12; ++i) {
            D3 d = s[i].second; double val = s[i].first;
            int it = 0;
            for (double step = 0.3; step > 1e-5 && ++it < 400;) {
                D3 u = unit(std::abs(d.x) < 0.7 ? cr(d, D3{1, 0, 0}) : cr(d, D3{0, 1, 0})), w = cr(d, u); bool up = false;
                for (int k = 0; k < 8; ++k) { double a = PI / 4 * k + 0.1; D3 t = unit(d + (u * std::cos(a) + w * std::sin(a)) * step); double x = sep(t); if (x > val + 1e-7) { val = x; d = t; up = true; break; } }
                if (!up) step *= 0.6;
            }
            if (val > m) { m = val; dir = d; }
        }
        return m;
    }
};
void run(const obj &A, const obj &B, D3 pa, const quaternion &qa, D3 pb, const quaternion &qb, collision_result &res) {
    any_shape sa = A.shape, sb = B.shape; rotated_mesh ra, rb;
    if (auto *p = std::get_if<polyhedron_shape>(&sa)) { ra = make_rotated_mesh(*p->mesh, qa); p->rotated = &ra; }
    if (auto *p = std::get_if<polyhedron_shape>(&sb)) { rb = make_rotated_mesh(*p->mesh, qb); p->rotated = &rb; }
    std::visit([&](auto &x) { std::visit([&](auto &y) {
        collision_context ctx{V(pa), qa, shape_aabb(x, V(pa), qa), V(pb), qb, shape_aabb(y, V(pb), qb), collision_threshold};
        collide(x, y, ctx, res);
    }, sb); }, sa);
}
std::string show(const collision_result &r) {
    std::string t; char b[300];
    for (size_t i = 0; i < r.num_points; ++i) { auto &p = r.point[i]; snprintf(b, sizeof b, "\n    point %zu: normal (%.6f %.6f %.6f) distance %.6f pivots (%.5f %.5f %.5f) (%.5f %.5f %.5f)", i, p.normal.x, p.normal.y, p.normal.z, p.distance, p.pivotA.x, p.pivotA.y, p.pivotA.z, p.pivotB.x, p.pivotB.y, p.pivotB.z); t += b; }
    return t;
}
const double thr = collision_threshold;

void judge(const pair_world &w, const collision_result &r, double D) {
    const double tol = 0.01, near = w.rim() ? 0.12 : tol, ptol = w.rim() ? 0.3 : tol;
    VP_CHECK(r.num_points <= max_contacts, "%zu points", size_t(r.num_points));
    if (D > thr + near) VP_CHECK(r.num_points == 0, "the shapes are %g apart but %zu points are reported%s", D, size_t(r.num_points), show(r).c_str());
    if (D < -0.002 && r.num_points == 0 && !w.incomplete()) { double u = w.reach(); VP_CHECK(!(u < 5e-4), "no contact is reported for shapes that overlap"); }
    double least = 1e9;
    for (size_t i = 0; i < r.num_points; ++i) {
        auto &p = r.point[i]; D3 n = p.normal;
        VP_CHECK(finite(n) && finite(D3(p.pivotA)) && finite(D3(p.pivotB)) && std::isfinite(p.distance), "point %zu is not finite%s", i, show(r).c_str());
        VP_CHECK(std::abs(nm(n) - 1) < 1e-3, "the normal of point %zu is not a unit vector%s", i, show(r).c_str());
        VP_CHECK(p.distance < thr + tol, "point %zu is reported beyond the threshold%s", i, show(r).c_str());
        VP_CHECK(std::abs(w.A.surface(D3(p.pivotA))) < ptol, "pivot A of point %zu is %g off the surface%s", i, w.A.surface(D3(p.pivotA)), show(r).c_str());
        VP_CHECK(std::abs(w.B.surface(D3(p.pivotB))) < ptol, "pivot B of point %zu is %g off the surface%s", i, w.B.surface(D3(p.pivotB)), show(r).c_str());
        D3 x = to_world(D3(p.pivotA), w.pa, w.qa) - to_world(D3(p.pivotB), w.pb, w.qb);
        VP_CHECK(std::abs(dt(x, n) - p.distance) < tol, "the pivots of point %zu are %g apart along the normal%s", i, dt(x, n), show(r).c_str());
        double s = w.sep(n);
        VP_CHECK(s > D - near, "the normal of point %zu leaves a gap of %g, the gap is %g%s", i, s, D, show(r).c_str());
        VP_CHECK(p.distance > s - tol, "point %zu lies deeper than the shapes overlap along its normal, which is %g%s", i, s, show(r).c_str());
        least = std::min(least, double(p.distance));
    }
    if (r.num_points) VP_CHECK(std::abs(least - D) < near, "the least distance reported is %g, the gap is %g%s", least, D, show(r).c_str());
}
void convex(int ka, int kb, int level) {
    auto as = make(ka), bs = make(kb);
    std::vector<quaternion> qs = orientations(level > 0), q0 = {Q(0, 0, 0, 1), Q(1, 2, 3, 4)};
    auto ds = directions();
    const double gaps[] = {-0.2, -0.04, -0.004, 0.002, 0.03, 0.5};
    // The quick tier visits every stride-th placement of the costly pairs.
    size_t stride = vp::thorough() ? 1 : ka == 4 ? 5 : kb == 4 ? (ka == 2 || ka == 3 ? 5 : 3) : ka >= 2 ? 2 : 1, index = 0;
    for (auto &A : as) for (auto &B : bs) for (auto &qa : q0) for (auto &qb : qs) for (size_t di = 0; di < ds.size(); ++di) for (int lat = 0; lat < 3; ++lat) {
        if (index++ % stride || !vp::begin()) continue;
        D3 d = ds[di], u = unit(cr(d, std::abs(d.x) < 0.7 ? D3{1, 0, 0} : D3{0, 1, 0})), v = cr(d, u);
        D3 side = lat == 0 ? D3{} : lat == 1 ? u * 0.3 + v * 0.2 : u * -0.6 + v * 0.35;
        for (double g : gaps) {
            D3 pa{0.5, -1, 2};
            pair_world w{A, B, pa, {}, qa, qb};
            double t = g + A.h(unrot(qa, -d)) + B.h(unrot(qb, d));
            w.pb = pa - d * t + side;
            w.pa = D3(V(w.pa)); w.pb = D3(V(w.pb));
            vp::describer() = [&] { return A.name + " at " + str(w.pa) + str(qa) + " and " + B.name + " at " + str(w.pb) + str(qb); };
            collision_result r; run(A, B, w.pa, qa, w.pb, qb, r);
            D3 bd; double D = w.best(bd);
            // The direction reported may be better than the one found by the search.
            for (size_t i = 0; i < r.num_points; ++i) if (finite(D3(r.point[i].normal)) && std::abs(nm(D3(r.point[i].normal)) - 1) < 1e-3) D = std::max(D, w.sep(unit(D3(r.point[i].normal))));
            vp::transitions(); vp::nontrivial(D < thr);
            judge(w, r, D);
            if (ka == kb || std::abs(g) > 0.1) continue;
            // The same with the bodies exchanged.
            pair_world x{B, A, w.pb, w.pa, qb, qa};
            collision_result e; run(B, A, w.pb, qb, w.pa, qa, e); vp::transitions();
            judge(x, e, D);
            VP_CHECK(e.num_points == r.num_points, "%zu points, but %zu with the bodies exchanged", size_t(r.num_points), size_t(e.num_points));
        }
    }
}
void planes(int ka) {
    auto as = make(ka), bs = make(5);
    auto qs = orientations(true);
    for (auto &A : as) for (auto &B : bs) for (auto &qa : qs) {
        if (!vp::begin()) continue;
        auto n = D3(std::get<5>(B.shape).normal); double c = std::get<5>(B.shape).constant;
        for (double g : {-0.5, -0.04, -0.004, 0.0, 0.005, 0.0095, 0.015, 0.5}) for (D3 side : {D3{0, 0, 0}, D3{3, -1, 2}}) for (int swap = 0; swap < 2; ++swap) {
            side = side - n * dt(side, n);
            D3 pa = D3(V(n * (c + g + A.h(unrot(qa, -n))) + side));
            double D = dt(pa, n) - A.h(unrot(qa, -n)) - c;
            vp::describer() = [&] { return A.name + " at " + str(pa) + str(qa) + " and " + B.name + (swap ? ", exchanged" : ""); };
            collision_result r; D3 zero; quaternion id{0, 0, 0, 1};
            if (swap) run(B, A, zero, id, pa, qa, r); else run(A, B, pa, qa, zero, id, r);
            vp::transitions(); vp::nontrivial(D < thr);
            if (D > thr + 1e-4) VP_CHECK(r.num_points == 0, "%g above the plane, but %zu points are reported%s", D, size_t(r.num_points), show(r).c_str());
            if (D < thr - 1e-4) VP_CHECK(r.num_points > 0, "no contact is reported %g above the plane", D);
            double least = 1e9;
            for (size_t i = 0; i < r.num_points; ++i) {
                auto p = r.point[i];
                D3 a = swap ? p.pivotB : p.pivotA, b = swap ? p.pivotA : p.pivotB, m = D3(p.normal) * (swap ? -1. : 1.);
                VP_CHECK(nm(m - n) < 1e-3, "the normal of point %zu is not that of the plane%s", i, show(r).c_str());
                double off = std::abs(A.surface(a));
                // Both hemispheres of a capsule touch the plane, even if one is inside of it.
                if (auto *k = std::get_if<capsule_shape>(&A.shape)) for (double e : {-1., 1.}) { D3 h; h[size_t(k->axis)] = e * k->half_length; off = std::min(off, std::abs(nm(a - h) - k->radius)); }
                VP_CHECK(off < 0.005, "point %zu is %g off the surface%s", i, A.surface(a), show(r).c_str());
                VP_CHECK(std::abs(dt(b, n) - c) < 1e-3, "point %zu is not on the plane%s", i, show(r).c_str());
                D3 wa = to_world(a, pa, qa);
                VP_CHECK(std::abs(dt(wa, n) - c - p.distance) < 0.005 && nm(wa - n * p.distance - b) < 0.01, "the pivots of point %zu do not match its distance%s", i, show(r).c_str());
                VP_CHECK(p.distance < thr + 0.005, "point %zu is beyond the threshold%s", i, show(r).c_str());
                least = std::min(least, double(p.distance));
                for (size_t j = 0; j < i; ++j) VP_CHECK(nm(D3(r.point[j].pivotA) - D3(p.pivotA)) > 1e-4 || nm(D3(r.point[j].pivotB) - D3(p.pivotB)) > 1e-4, "point %zu is there twice%s", i, show(r).c_str());
            }
            if (r.num_points) VP_CHECK(std::abs(least - D) < 0.005, "the least distance reported is %g instead of %g%s", least, D, show(r).c_str());
            // A flat face rests on the plane with all of its corners, or on points around its center.
            if (D < 0.005) for (auto f : A.faces()) for (double s : {1., -1.}) if ((s > 0 || ka != 4) && nm(rot(qa, f) * s + n) < 1e-4) {
                VP_CHECK(r.num_points >= 3, "a face lies on the plane with %zu points%s", size_t(r.num_points), show(r).c_str());
                D3 u = unit(cr(n, std::abs(n.x) < 0.7 ? D3{1, 0, 0} : D3{0, 1, 0})), v = cr(n, u);
                D3 mid = D3(swap ? r.point[0].pivotB : r.point[0].pivotA); for (size_t i = 1; i < r.num_points; ++i) mid = mid + D3(swap ? r.point[i].pivotB : r.point[i].pivotA); mid = mid / double(r.num_points);
                double most = 1e9;
                for (int k = 0; k < 8; ++k) { D3 d = u * std::cos(k * PI / 4) + v * std::sin(k * PI / 4); double m = -1e9; for (size_t i = 0; i < r.num_points; ++i) m = std::max(m, dt(rot(qa, D3(swap ? r.point[i].pivotB : r.point[i].pivotA) - mid), d)); most = std::min(most, m); }
                VP_CHECK(most > 0.02, "the points do not support the face%s", show(r).c_str());
            }
        }
    }
}
// A flat mesh of many triangles holds a shape like a plane does.
void flat_mesh(int ka) {
    auto mesh = std::make_shared<triangle_mesh>();
    std::vector<vector3> vs; std::vector<triangle_mesh::index_type> ix;
    const int N = 7;
    for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) vs.push_back(V(D3{(i - 3.6) * 1.1, 0.5, (j - 3.3) * 1.3}));
    auto at = [&](int i, int j) { return triangle_mesh::index_type(i * (N + 1) + j); };
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { if ((i + j) % 2) ix.insert(ix.end(), {at(i, j), at(i, j + 1), at(i + 1, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1)}); else ix.insert(ix.end(), {at(i, j), at(i, j + 1), at(i + 1, j + 1), at(i, j), at(i + 1, j + 1), at(i + 1, j)}); }
    mesh->insert_vertices(vs.begin(), vs.end()); mesh->insert_indices(ix.begin(), ix.end()); mesh->initialize();
    mesh_shape M{mesh};
    auto as = make(ka);
    const D3 n{0, 1, 0};
    for (auto &A : as) for (auto &qa : orientations(true)) for (D3 at : {D3{0, 0, 0}, D3{0.3, 0, -0.2}, D3{-0.66, 0, 0.26}, D3{-0.15, 0, 0.75}}) {
        if (!vp::begin()) continue;
        for (double g : {-0.05, -0.004, 0.004, 0.5}) for (int swap = 0; swap < 2; ++swap) {
            D3 pa = D3(V(n * (0.5 + g + A.h(unrot(qa, -n))) + at));
            double D = pa.y - A.h(unrot(qa, -n)) - 0.5;
            vp::describer() = [&] { return A.name + " at " + str(pa) + str(qa) + " on a flat mesh" + (swap ? ", exchanged" : ""); };
            any_shape sa = A.shape; rotated_mesh ra; if (auto *p = std::get_if<polyhedron_shape>(&sa)) { ra = make_rotated_mesh(*p->mesh, qa); p->rotated = &ra; }
            collision_result r;
            std::visit([&](auto &x) {
                if constexpr(!std::is_same_v<std::decay_t<decltype(x)>, plane_shape>) {
                    quaternion id{0, 0, 0, 1}; auto ba = shape_aabb(x, V(pa), qa), bm = shape_aabb(M, vector3_zero, id);
                    if (swap) collide(M, x, collision_context{vector3_zero, id, bm, V(pa), qa, ba, collision_threshold}, r);
                    else collide(x, M, collision_context{V(pa), qa, ba, vector3_zero, id, bm, collision_threshold}, r);
                }
            }, sa);
            vp::transitions(); vp::nontrivial(D < thr);
            if (D > thr + 1e-4) VP_CHECK(r.num_points == 0, "%g above the mesh, but %zu points are reported%s", D, size_t(r.num_points), show(r).c_str());
            if (D < thr - 1e-4) VP_CHECK(r.num_points > 0, "no contact is reported %g above the mesh", D);
            double least = 1e9;
            for (size_t i = 0; i < r.num_points; ++i) {
                auto p = r.point[i];
                D3 a = swap ? p.pivotB : p.pivotA, b = swap ? p.pivotA : p.pivotB, m = D3(p.normal) * (swap ? -1. : 1.);
                VP_CHECK(nm(m - n) < 0.02, "the normal of point %zu is not that of the mesh%s", i, show(r).c_str());
                VP_CHECK(std::abs(b.y - 0.5) < 2e-3, "point %zu is not on the mesh%s", i, show(r).c_str());
                VP_CHECK(std::abs(A.surface(a)) < 0.02, "point %zu is %g off the surface%s", i, A.surface(a), show(r).c_str());
                D3 wa = to_world(a, pa, qa);
                VP_CHECK(std::abs(dt(wa - b, m) - p.distance) < 0.01, "the pivots of point %zu do not match its distance%s", i, show(r).c_str());
                least = std::min(least, double(p.distance));
            }
            if (r.num_points) VP_CHECK(std::abs(least - D) < 0.01, "the least distance reported is %g instead of %g%s", least, D, show(r).c_str());
        }
    }
}
// A shape inside of a compound collides like the shape placed there by itself; shapes out of reach change nothing.
void compounds(int ka) {
    auto as = make(ka);
    const D3 cp{0.4, -0.3, 0.7}; const quaternion cq = Q(2, -1, 1, 3);
    auto place = [&](const obj &O, D3 p, const quaternion &q, D3 &op, quaternion &oq) { op = p + rot(q, cp); oq = q * cq; (void)O; };
    for (auto &A : as) for (int kb = 0; kb < 6; ++kb) { auto bs = make(kb); for (auto &B : bs) for (auto &qb : {Q(0, 0, 0, 1), Q(3, -1, 2, 2)}) for (auto &qa : orientations(false)) for (size_t di = 0; di < directions().size(); di += 3) for (int both = 0; both < (kb < 5 ? 2 : 1); ++both) for (int extra = 0; extra < (kb < 5 ? 2 : 1); ++extra) {
        if (!vp::begin()) continue;
        D3 d = directions()[di]; D3 pa{0.25, 1, -0.5}, ca; quaternion cqa; place(A, pa, qa, ca, cqa);
        D3 pb, cb; quaternion cqb; D3 dirn = d;
        if (kb == 5) { dirn = D3(std::get<5>(B.shape).normal); D3 shift = dirn * (std::get<5>(B.shape).constant - 0.03 + A.h(unrot(cqa, -dirn)) - dt(ca, dirn)); pa = D3(V(pa + shift)); place(A, pa, qa, ca, cqa); cb = {}; cqb = Q(0, 0, 0, 1); }
        else { cqb = both ? qb * cq : qb; D3 want = ca - d * (-0.03 + A.h(unrot(cqa, -d)) + B.h(unrot(cqb, d))); pb = D3(V(both ? want - rot(qb, cp) : want)); cb = both ? pb + rot(qb, cp) : pb; }
        rotated_mesh ra, rb;
        any_shape sa = A.shape, sb = B.shape;
        if (auto *p = std::get_if<polyhedron_shape>(&sa)) { ra = make_rotated_mesh(*p->mesh, cqa); p->rotated = &ra; }
        if (auto *p = std::get_if<polyhedron_shape>(&sb)) { rb = make_rotated_mesh(*p->mesh, cqb); p->rotated = &rb; }
        auto wrap = [&](const any_shape &x) {
            compound_shape c;
            if (extra) c.add_shape(sphere_shape{scalar(0.1)}, vector3{50, 60, 70}, quaternion_identity);
            std::visit([&](auto &y) { if constexpr(!std::is_same_v<std::decay_t<decltype(y)>, plane_shape>) c.add_shape(y, V(cp), cq); }, x);
            c.finish(); return c;
        };
        vp::describer() = [&] { return "compound of " + A.name + " at " + str(pa) + str(qa) + " and " + (both ? "compound of " : "") + B.name + " at " + str(pb) + str(qb) + (extra ? " with another shape far away" : ""); };
        collision_result r, want, swapped;
        compound_shape CA = wrap(sa);
        std::visit([&](auto &x) { std::visit([&](auto &y) {
            collide(x, y, collision_context{V(ca), cqa, shape_aabb(x, V(ca), cqa), V(cb), cqb, shape_aabb(y, V(cb), cqb), collision_threshold}, want);
            auto go = [&](auto &z, D3 p, const quaternion &q) {
                collide(CA, z, collision_context{V(pa), qa, shape_aabb(CA, V(pa), qa), V(p), q, shape_aabb(z, V(p), q), collision_threshold}, r);
                collide(z, CA, collision_context{V(p), q, shape_aabb(z, V(p), q), V(pa), qa, shape_aabb(CA, V(pa), qa), collision_threshold}, swapped);
            };
            if (both) { compound_shape CB = wrap(sb); go(CB, pb, qb); } else if (kb == 5) go(y, D3{}, Q(0, 0, 0, 1)); else go(y, pb, qb);
        }, sb); }, sa);
        vp::transitions(2); vp::nontrivial(want.num_points > 0);
        for (int sw = 0; sw < 2; ++sw) {
            auto &R = sw ? swapped : r;
            bool overlap = false; for (size_t i = 0; i < want.num_points; ++i) overlap |= want.point[i].distance < -1e-3;
            if (!R.num_points && !overlap) continue;
            VP_CHECK((R.num_points > 0) == (want.num_points > 0), "%zu points instead of %zu%s%s", size_t(R.num_points), size_t(want.num_points), show(R).c_str(), sw ? " (exchanged)" : "");
            double l0 = 1e9, l1 = 1e9;
            for (size_t i = 0; i < want.num_points; ++i) l0 = std::min(l0, double(want.point[i].distance));
            for (size_t i = 0; i < R.num_points; ++i) {
                auto p = R.point[i]; l1 = std::min(l1, double(p.distance));
                D3 a = sw ? p.pivotB : p.pivotA, b = sw ? p.pivotA : p.pivotB, n = D3(p.normal) * (sw ? -1. : 1.);
                // There may be several directions along which the shapes overlap least.
                auto tie = [&] { if (kb == 5) return false; pair_world pw{A, B, ca, cb, cqa, cqb}; return pw.sep(n) > pw.sep(D3(want.point[0].normal)) - 0.005; };
                VP_CHECK(nm(n - D3(want.point[0].normal)) < 0.02 || ka == 2 || kb == 2 || tie(), "the normal differs from that of the shape by itself%s\nwanted%s", show(R).c_str(), show(want).c_str());
                auto &fa = sw ? p.featureB : p.featureA; auto &fb = sw ? p.featureA : p.featureB;
                VP_CHECK(fa && fa->part == size_t(extra), "the part of the compound is not named%s", show(R).c_str());
                if (both) VP_CHECK(fb && fb->part == size_t(extra), "the part of the second compound is not named%s", show(R).c_str());
                D3 x = to_world(a, pa, qa) - (kb == 5 ? b : to_world(b, pb, qb));
                VP_CHECK(std::abs(dt(x, n) - p.distance) < 0.01, "the pivots of point %zu are %g apart along the normal%s", i, dt(x, n), show(R).c_str());
                D3 la = unrot(cq, a - cp); double off = std::abs(A.surface(la));
                if (auto *k = std::get_if<capsule_shape>(&A.shape)) for (double e : {-1., 1.}) { D3 h; h[size_t(k->axis)] = e * k->half_length; off = std::min(off, std::abs(nm(la - h) - k->radius)); }
                VP_CHECK(off < 0.02 || ka == 2 || kb == 2, "pivot %zu is %g off the surface of the shape%s", i, off, show(R).c_str());
            }
            if (R.num_points) VP_CHECK(std::abs(l0 - l1) < 0.01, "the least distance is %g instead of %g%s", l1, l0, show(R).c_str());
        }
    } }
}
}
VP_SCENARIO(compound_sphere) { compounds(0); }
VP_SCENARIO(compound_box) { compounds(1); }
VP_SCENARIO(compound_cylinder) { compounds(2); }
VP_SCENARIO(compound_capsule) { compounds(3); }
VP_SCENARIO(compound_polyhedron) { compounds(4); }
VP_SCENARIO(flat_mesh_sphere) { flat_mesh(0); }
VP_SCENARIO(flat_mesh_box) { flat_mesh(1); }
VP_SCENARIO(flat_mesh_cylinder) { flat_mesh(2); }
VP_SCENARIO(flat_mesh_capsule) { flat_mesh(3); }
VP_SCENARIO(flat_mesh_polyhedron) { flat_mesh(4); }
VP_SCENARIO(sphere_plane) { planes(0); }
VP_SCENARIO(box_plane) { planes(1); }
VP_SCENARIO(cylinder_plane) { planes(2); }
VP_SCENARIO(capsule_plane) { planes(3); }
VP_SCENARIO(polyhedron_plane) { planes(4); }
VP_SCENARIO(sphere_sphere) { convex(0, 0, 0); }
VP_SCENARIO(sphere_box) { convex(0, 1, 0); }
VP_SCENARIO(sphere_cylinder) { convex(0, 2, 0); }
VP_SCENARIO(sphere_capsule) { convex(0, 3, 0); }
VP_SCENARIO(sphere_polyhedron) { convex(0, 4, 0); }
VP_SCENARIO(box_box) { convex(1, 1, 0); }
VP_SCENARIO(box_cylinder) { convex(1, 2, 0); }
VP_SCENARIO(box_capsule) { convex(1, 3, 0); }
VP_SCENARIO(box_polyhedron) { convex(1, 4, 0); }
VP_SCENARIO(cylinder_cylinder) { convex(2, 2, 0); }
VP_SCENARIO(cylinder_capsule) { convex(2, 3, 0); }
VP_SCENARIO(cylinder_polyhedron) { convex(2, 4, 0); }
VP_SCENARIO(capsule_capsule) { convex(3, 3, 0); }
VP_SCENARIO(capsule_polyhedron) { convex(3, 4, 0); }
VP_SCENARIO(polyhedron_polyhedron) { convex(4, 4, 0); }
