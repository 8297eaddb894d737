// Vectors, quaternions, matrices and transforms against textbook formulas in double precision.
#include "geo.hpp"
#include "edyn/math/math.hpp"
#include "edyn/math/transform.hpp"
#include "edyn/math/vector2_3_util.hpp"
#include "edyn/math/geom.hpp"
using namespace edyn;
using namespace geo;

namespace {
bool same(const vector3 &v, D3 w) { return v.x == scalar(w.x) && v.y == scalar(w.y) && v.z == scalar(w.z); }
typedef std::array<std::array<double, 3>, 3> M3;
M3 mat(const matrix3x3 &m) { M3 r; for (int i = 0; i < 3; ++i) r[i] = {double(m.row[i].x), double(m.row[i].y), double(m.row[i].z)}; return r; }
M3 mul(M3 a, M3 b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = 0; for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j]; } return r; }
D3 mul(M3 a, D3 v) { return {a[0][0] * v.x + a[0][1] * v.y + a[0][2] * v.z, a[1][0] * v.x + a[1][1] * v.y + a[1][2] * v.z, a[2][0] * v.x + a[2][1] * v.y + a[2][2] * v.z}; }
double det(M3 m) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }
M3 tr(M3 m) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = m[j][i]; return r; }
bool eq(M3 a, M3 b, double tol) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!near(a[i][j], b[i][j], tol)) return false; return true; }
bool eq(const matrix3x3 &a, M3 b, double tol) { return eq(mat(a), b, tol); }
M3 rotm(const quaternion &q) { M3 r; for (int j = 0; j < 3; ++j) { D3 c = rot(q, axis_dir(j)); for (int i = 0; i < 3; ++i) r[i][j] = c[i]; } return r; }
DQ qm(DQ a, DQ b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z, a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
bool qeq(const quaternion &a, DQ b, double tol = 1e-6) { return near(a.x, b.x, tol) && near(a.y, b.y, tol) && near(a.z, b.z, tol) && near(a.w, b.w, tol); }
double qlen(const quaternion &q) { return std::sqrt(double(q.x) * q.x + double(q.y) * q.y + double(q.z) * q.z + double(q.w) * q.w); }
// Angle of the rotation that takes one orientation to the other, in [0, pi].
double rot_angle(const quaternion &a, const quaternion &b) {
    auto A = dq(a), B = dq(b);
    DQ r = qm({-A.x, -A.y, -A.z, A.w}, B);
    return 2 * std::atan2(std::sqrt(r.x * r.x + r.y * r.y + r.z * r.z), std::abs(r.w));
}
std::vector<quaternion> quats() {
    std::vector<quaternion> r = orientations(1);
    for (double w : {-1., 0., 0.2}) for (D3 d : directions()) r.push_back(Q(d.x, d.y, d.z, w));
    for (double t : {1e-4, 0.01, 0.5, 3.1, 3.14159, 3.2, 6.2}) for (D3 d : {D3{1, 0, 0}, D3{0, 1, 0}, D3{0, 0, 1}, D3{1, -2, 0.5}}) r.push_back(QA(d, t));
    return r;
}
}

VP_SCENARIO(vector_operations) {
    // Small dyadic numbers: single precision arithmetic is exact.
    auto L = lattice(vp::thorough() ? std::vector<double>{-2, -0.5, 0, 1, 4} : std::vector<double>{-2, 0, 0.5, 4});
    for (auto a : L) for (auto b : L) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return geo::str(a) + geo::str(b); };
        vp::nontrivial(n2(a) > 0 && n2(b) > 0);
        auto v = V(a), w = V(b);
        VP_CHECK(same(v + w, a + b) && same(v - w, a - b) && same(-v, -a), "sum, difference or negation");
        VP_CHECK(same(v * w, {a.x * b.x, a.y * b.y, a.z * b.z}), "component-wise product");
        auto t = v; t += w; VP_CHECK(same(t, a + b), "+=");
        t = v; t -= w; VP_CHECK(same(t, a - b), "-=");
        t = v; t *= w; VP_CHECK(same(t, {a.x * b.x, a.y * b.y, a.z * b.z}), "*= vector");
        t = v; t *= w.x; VP_CHECK(same(t, a * b.x) && same(v * w.x, a * b.x) && same(w.x * v, a * b.x), "product with a scalar");
        if (b.x) { t = v; t /= w.x; VP_CHECK(same(t, a / b.x) && same(v / w.x, a / b.x), "division by a scalar"); }
        if (b.x && b.y && b.z) {
            t = v; t /= w; VP_CHECK(same(t, {a.x / b.x, a.y / b.y, a.z / b.z}) && same(v / w, {a.x / b.x, a.y / b.y, a.z / b.z}), "component-wise division");
            VP_CHECK(same(scalar(2) / w, {2 / b.x, 2 / b.y, 2 / b.z}), "scalar divided by a vector");
        }
        VP_CHECK((v == w) == (a.x == b.x && a.y == b.y && a.z == b.z) && (v != w) == !(v == w), "equality");
        VP_CHECK((v < w) == (a.x < b.x && a.y < b.y && a.z < b.z) && (v > w) == (a.x > b.x && a.y > b.y && a.z > b.z), "strict comparison");
        VP_CHECK((v <= w) == (a.x <= b.x && a.y <= b.y && a.z <= b.z) && (v >= w) == (a.x >= b.x && a.y >= b.y && a.z >= b.z), "comparison");
        VP_CHECK(dot(v, w) == scalar(dt(a, b)) && same(cross(v, w), cr(a, b)), "dot or cross product");
        VP_CHECK(length_sqr(v) == scalar(n2(a)) && near(length(v), nm(a), 1e-6), "length");
        VP_CHECK(distance_sqr(v, w) == scalar(n2(a - b)) && near(distance(v, w), nm(a - b), 1e-6), "distance");
        VP_CHECK(same(min(v, w), {std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)}) && same(max(v, w), {std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)}), "minimum or maximum");
        VP_CHECK(same(abs(v), {std::abs(a.x), std::abs(a.y), std::abs(a.z)}) && same(floor(v), {std::floor(a.x), std::floor(a.y), std::floor(a.z)}) && same(ceil(v), {std::ceil(a.x), std::ceil(a.y), std::ceil(a.z)}), "abs, floor or ceil");
        VP_CHECK(triple_product(v, w, vector3{1, -2, 0.5f}) == scalar(dt(a, cr(b, {1, -2, 0.5}))), "triple product");
        auto mi = min_index(v), ma = max_index(v), mia = min_index_abs(v), maa = max_index_abs(v);
        for (size_t i = 0; i < 3; ++i) VP_CHECK(mi < 3 && ma < 3 && mia < 3 && maa < 3 && a[mi] <= a[i] && a[ma] >= a[i] && std::abs(a[mia]) <= std::abs(a[i]) && std::abs(a[maa]) >= std::abs(a[i]), "index of the extreme coordinate");
        for (size_t i = 0; i < 3; ++i) VP_CHECK(v[i] == scalar(a[i]), "element access");
        auto n = v; bool ok = try_normalize(n);
        VP_CHECK(ok == (n2(a) > 0), "try_normalize returns %d", ok);
        VP_CHECK(near(D3(n), n2(a) > 0 ? unit(a) : a, 1e-6), "try_normalize");
        if (n2(a) > 0) VP_CHECK(near(D3(normalize(v)), unit(a), 1e-6), "normalize");
        if (n2(b) > 0) {
            D3 u = unit(b);
            VP_CHECK(near(D3(project_direction(v, V(u))), a - u * dt(a, u), 2e-6), "project_direction");
            D3 o{0.5, 1, -2};
            VP_CHECK(near(D3(project_plane(v, V(o), V(u))), a - u * dt(a - o, u), 2e-6), "project_plane");
        }
        for (double s : {0., 0.25, 1., -1.}) VP_CHECK(near(D3(lerp(v, w, scalar(s))), a + (b - a) * s, 1e-6), "lerp");
        // Two dimensions.
        vector2 p{scalar(a.x), scalar(a.y)}, q{scalar(b.x), scalar(b.y)};
        VP_CHECK(dot(p, q) == scalar(a.x * b.x + a.y * b.y) && perp_product(p, q) == scalar(a.x * b.y - a.y * b.x), "2D products");
        auto o = orthogonal(p); VP_CHECK(o.x == scalar(-a.y) && o.y == scalar(a.x), "orthogonal");
        auto s2 = p + q, d2 = p - q; VP_CHECK(s2.x == scalar(a.x + b.x) && s2.y == scalar(a.y + b.y) && d2.x == scalar(a.x - b.x) && d2.y == scalar(a.y - b.y), "2D sum");
        VP_CHECK(length_sqr(p) == scalar(a.x * a.x + a.y * a.y) && near(length(p), std::hypot(a.x, a.y), 1e-6) && distance_sqr(p, q) == scalar(n2({a.x - b.x, a.y - b.y, 0})), "2D length");
        auto is2 = [](const vector2 &r, double x, double y) { return r.x == scalar(x) && r.y == scalar(y); };
        VP_CHECK(is2(p * q, a.x * b.x, a.y * b.y) && is2(-p, -a.x, -a.y), "2D product or negation");
        VP_CHECK(is2(p * q.x, a.x * b.x, a.y * b.x) && is2(q.x * p, a.x * b.x, a.y * b.x), "2D product with a scalar");
        auto u2 = p; u2 += q; VP_CHECK(is2(u2, a.x + b.x, a.y + b.y), "2D +=");
        u2 = p; u2 -= q; VP_CHECK(is2(u2, a.x - b.x, a.y - b.y), "2D -=");
        u2 = p; u2 *= q.y; VP_CHECK(is2(u2, a.x * b.y, a.y * b.y), "2D *=");
        if (b.x) { u2 = p; u2 /= q.x; VP_CHECK(is2(u2, a.x / b.x, a.y / b.x) && is2(p / q.x, a.x / b.x, a.y / b.x), "2D division by a scalar"); }
        if (b.x && b.y) VP_CHECK(is2(scalar(2) / q, 2 / b.x, 2 / b.y), "scalar divided by a 2D vector");
        VP_CHECK(near(distance(p, q), std::hypot(a.x - b.x, a.y - b.y), 1e-6), "2D distance");
        VP_CHECK(p[0] == p.x && p[1] == p.y, "2D element access");
        if (a.x || a.y) { auto n2d = normalize(p); double l2 = std::hypot(a.x, a.y); VP_CHECK(near(n2d.x, a.x / l2, 1e-6) && near(n2d.y, a.y / l2, 1e-6), "2D normalize"); }
        VP_CHECK(average(std::array<vector3, 1>{v}) == v && same(average(std::array<vector3, 2>{v, w}), (a + b) / 2), "average of vectors");
        VP_CHECK(same(average(std::array<vector3, 4>{v, w, v, vector3{4, 8, -12}}), (a * 2 + b + D3{4, 8, -12}) / 4), "average of four vectors");
        VP_CHECK(average(std::array<scalar, 4>{v.x, v.y, v.z, w.x}) == scalar((a.x + a.y + a.z + b.x) / 4) && average(std::array<scalar, 2>{v.x, w.y}) == scalar((a.x + b.y) / 2) && average(std::array<scalar, 1>{v.x}) == v.x, "average of numbers");
        auto a8 = average(std::array<scalar, 8>{v.x, v.y, v.z, w.x, w.y, w.z, 1, 2}); VP_CHECK(a8 == scalar((a.x + a.y + a.z + b.x + b.y + b.z + 3) / 8), "average of eight numbers");
        auto e = to_vector2_xz(v), f = to_vector2_zy(v), g = to_vector2_zx(v), h = to_vector2_xy(v), k = to_vector2_yz(v), l = to_vector2_yx(v);
        VP_CHECK(e.x == v.x && e.y == v.z && f.x == v.z && f.y == v.y && g.x == v.z && g.y == v.x && h.x == v.x && h.y == v.y && k.x == v.y && k.y == v.z && l.x == v.y && l.y == v.x, "projection to 2D");
        VP_CHECK(to_vector3_xz(e) == (vector3{v.x, 0, v.z}) && to_vector3_zy(f) == (vector3{0, v.y, v.z}) && to_vector3_zx(g) == (vector3{v.x, 0, v.z}) && to_vector3_xy(h) == (vector3{v.x, v.y, 0}) && to_vector3_yz(k) == (vector3{0, v.y, v.z}) && to_vector3_yx(l) == (vector3{v.x, v.y, 0}), "embedding of 2D");
    }
}

VP_SCENARIO(scalar_functions) {
    if (vp::begin()) {
        vector3 v{2, 3, 5};
        const vector3 cv = v;
        scalar got[2][2][3] = {};
        int i0 = 0, i1 = 0;
        v.each([&](scalar &x, int i) { got[0][0][i] = x; });
        v.each([&](scalar &x) { if (i0 < 3) got[0][1][i0] = x; ++i0; });
        cv.each([&](scalar x, int i) { got[1][0][i] = x; });
        cv.each([&](scalar x) { if (i1 < 3) got[1][1][i1] = x; ++i1; });
        for (auto &a : got) for (auto &b : a) VP_CHECK(b[0] == 2 && b[1] == 3 && b[2] == 5 && i0 == 3 && i1 == 3, "each does not visit every component in order: %g %g %g", b[0], b[1], b[2]);
        v.each([&](scalar &x) { x *= 2; });
        VP_CHECK(v.x == 4 && v.y == 6 && v.z == 10, "each does not give access to the components");
    }
    for (int i = -2000; i <= 2000; ++i) {
        if (!vp::begin()) continue;
        scalar x = scalar(i) * scalar(0.01);
        vp::describe("%g", double(x));
        double n = normalize_angle(x), k = (double(x) - n) / (2 * PI);
        vp::nontrivial(std::abs(x) > PI);
        VP_CHECK(std::abs(n) <= PI + 1e-5, "normalize_angle returns %g", n);
        VP_CHECK(std::abs(k - std::round(k)) < 1e-5, "normalize_angle returns %g, which is another angle", n);
        VP_CHECK(near(to_degrees(x), double(x) * 180 / PI, 1e-6) && near(to_radians(x), double(x) * PI / 180, 1e-6), "angle units");
        VP_CHECK(near(to_Nm_per_radian(x), double(x) * 180 / PI, 1e-6) && near(to_Nm_per_degree(x), double(x) * PI / 180, 1e-6), "torque units");
        VP_CHECK(clamp_unit(x) == (x < 0 ? 0 : x > 1 ? 1 : x) && square(x) == x * x, "clamp_unit or square");
        VP_CHECK(to_sign(x > 0) == (x > 0 ? 1 : -1), "to_sign");
    }
}

VP_SCENARIO(quaternions) {
    auto qs = quats();
    auto D = directions();
    for (auto &a : qs) for (auto &b : qs) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return geo::str(a) + geo::str(b); };
        vp::nontrivial(std::abs(rot_angle(a, b)) > 1e-3);
        VP_CHECK(qeq(a * b, qm(dq(a), dq(b))), "product");
        auto c = a; c *= b; VP_CHECK(qeq(c, qm(dq(a), dq(b))), "*=");
        for (D3 v : {D3{1, 0, 0}, D3{0.5, -2, 3}}) {
            VP_CHECK(near(D3(rotate(a * b, V(v))), rot(a, rot(b, v)), 3e-6), "the product does not compose rotations");
            VP_CHECK(near(D3(rotate(conjugate(a), rotate(a, V(v)))), v, 3e-6), "the conjugate does not invert the rotation");
            VP_CHECK(qeq(a * V(v), qm(dq(a), {v.x, v.y, v.z, 0})) && qeq(V(v) * a, qm({v.x, v.y, v.z, 0}, dq(a))), "product with a vector");
        }
        VP_CHECK(qeq(a + b, {double(a.x) + b.x, double(a.y) + b.y, double(a.z) + b.z, double(a.w) + b.w}) && qeq(a - b, {double(a.x) - b.x, double(a.y) - b.y, double(a.z) - b.z, double(a.w) - b.w}), "sum");
        auto s = a; s += b; auto d = a; d -= b; VP_CHECK(s == a + b && d == a - b && (a == b) == !(a != b), "+=, -= or equality");
        VP_CHECK(a != (quaternion{a.x, a.y, a.z, a.w + 1}) && a != (quaternion{a.x + 1, a.y, a.z, a.w}) && a != (quaternion{a.x, a.y + 1, a.z, a.w}) && a != (quaternion{a.x, a.y, a.z + 1, a.w}), "inequality");
        VP_CHECK(near(dot(a, b), double(a.x) * b.x + double(a.y) * b.y + double(a.z) * b.z + double(a.w) * b.w, 1e-6), "dot");
        double ang = rot_angle(a, b), got = angle_between(a, b);
        VP_CHECK(std::abs(got - ang) < 2e-3, "angle_between is %g instead of %g", got, ang);
        for (double k : {0.5, 3.}) {
            quaternion as{scalar(k) * a.x, scalar(k) * a.y, scalar(k) * a.z, scalar(k) * a.w};
            quaternion bs{scalar(2) * b.x, scalar(2) * b.y, scalar(2) * b.z, scalar(2) * b.w};
            double g2 = angle_between(as, bs);
            VP_CHECK(std::abs(g2 - ang) < 2e-3, "angle_between of quaternions that are not unit is %g instead of %g", g2, ang);
        }
        for (double t : {0., 0.25, 0.5, 0.9, 1.}) {
            auto r = slerp(a, b, scalar(t));
            VP_CHECK(near(qlen(r), 1, 1e-4), "slerp at %g is not a unit quaternion", t);
            if (ang > PI - 1e-3) continue;
            VP_CHECK(std::abs(rot_angle(a, r) - t * ang) < 2e-3 && std::abs(rot_angle(r, b) - (1 - t) * ang) < 2e-3, "slerp at %g is %g from the start, of %g in all", t, rot_angle(a, r), ang);
        }
    }
    for (auto &q : qs) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return geo::str(q); };
        for (auto v : D) VP_CHECK(near(D3(rotate(q, V(v))), rot(q, v), 2e-6), "rotate");
        VP_CHECK(near(D3(quaternion_x(q)), rot(q, {1, 0, 0}), 2e-6) && near(D3(quaternion_y(q)), rot(q, {0, 1, 0}), 2e-6) && near(D3(quaternion_z(q)), rot(q, {0, 0, 1}), 2e-6), "basis vectors");
        for (int i = 0; i < 3; ++i) VP_CHECK(near(D3(coordinate_axis_vector(coordinate_axis(i), q)), rot(q, axis_dir(i)), 2e-6) && coordinate_axis_vector(coordinate_axis(i)) == V(axis_dir(i)), "coordinate axis");
        VP_CHECK(near(length(q), 1, 1e-6) && near(length_sqr(q), 1, 1e-6), "length");
        auto big = q * scalar(3); VP_CHECK(qeq(normalize(big), dq(q)) && qeq(scalar(3) * q, dq(big)) && qeq(big / scalar(3), dq(q)), "normalize or scaling");
        if (q.x && q.y && q.z && q.w) { auto iq = scalar(2) / q; VP_CHECK(qeq(iq, {2. / q.x, 2. / q.y, 2. / q.z, 2. / q.w}, 1e-6), "scalar divided by a quaternion"); }
        auto m = to_matrix3x3(q);
        VP_CHECK(eq(m, rotm(q), 2e-6) && eq(to_matrix3x3(big), rotm(q), 2e-6), "to_matrix3x3");
        auto back = to_quaternion(m);
        VP_CHECK(near(qlen(back), 1, 1e-3) && rot_angle(back, q) < 2e-3, "to_quaternion gives %s", geo::str(back).c_str());
        double ang = 2 * std::acos(std::min(1., std::max(-1., double(q.w))));
        VP_CHECK(std::abs(quaternion_angle(q) - ang) < 2e-3, "quaternion_angle %g instead of %g", double(quaternion_angle(q)), ang);
        if (1 - double(q.w) * q.w > 1e-3) VP_CHECK(near(D3(quaternion_axis(q)), unit({double(q.x), double(q.y), double(q.z)}), 1e-4), "quaternion_axis");
        else VP_CHECK(near(nm(D3(quaternion_axis(q))), 1, 0.1), "quaternion_axis is not a unit vector");
        for (D3 w : {D3{0, 0, 0}, D3{1, 0, 0}, D3{0, -3, 4}, D3{0.0004, 0.0003, 0}, D3{0.0002, 0, -0.0008}, D3{20, -7, 11}, D3{0, 0, 0.001}, D3{0.3, -0.4, 0.5}, D3{0, 0, 0.9}, D3{0.05, 0.02, 0}}) for (double h : {1 / 60., 0.25, 1., 2., 100., 500.}) {
            if (h > 2 && nm(w) > 0.00099) continue;   // long steps exercise the series used for slow rotations
            auto r = integrate(q, V(w), scalar(h));
            double th = nm(w) * h; DQ step = th > 0 ? DQ{w.x / nm(w) * std::sin(th / 2), w.y / nm(w) * std::sin(th / 2), w.z / nm(w) * std::sin(th / 2), std::cos(th / 2)} : DQ{0, 0, 0, 1};
            VP_CHECK(qeq(r, qm(step, dq(q)), 1e-4), "integrate with angular velocity %s over %g: %s", geo::str(w).c_str(), h, geo::str(r).c_str());
            VP_CHECK(near(qlen(r), 1, 1e-6), "integrate does not return a unit quaternion");
            VP_CHECK(qeq(quaternion_derivative(q, V(w)), [&] { auto p = qm({w.x, w.y, w.z, 0}, dq(q)); return DQ{p.x / 2, p.y / 2, p.z / 2, p.w / 2}; }(), 1e-5), "quaternion_derivative");
        }
        D3 pos{0.5, -3, 2};
        for (auto v : D) {
            VP_CHECK(near(D3(to_world_space(V(v), V(pos), q)), pos + rot(q, v), 5e-6) && near(D3(to_world_space(V(v), V(pos), m)), pos + rot(q, v), 5e-6), "to_world_space");
            VP_CHECK(near(D3(to_object_space(V(v), V(pos), q)), unrot(q, v - pos), 5e-6) && near(D3(to_object_space(V(v), V(pos), m)), unrot(q, v - pos), 5e-6), "to_object_space");
        }
    }
    // Nearly opposite vectors.
    for (auto a : D) for (double deg : {170., 176., 178., 179.}) for (int k = 0; k < 6; ++k) {
        if (!vp::begin()) continue;
        vp::describe("shortest arc over %g degrees, side %d", deg, k);
        D3 u = unit(cr(a, std::abs(a.x) < 0.8 ? D3{1, 0, 0} : D3{0, 1, 0})), w = cr(a, u); D3 side = u * std::cos(k) + w * std::sin(k);
        D3 b = unit(a) * std::cos(deg * PI / 180) + side * std::sin(deg * PI / 180);
        auto r = shortest_arc(V(unit(a)), V(b));
        VP_CHECK(near(rot(r, unit(a)), b, 5e-3), "shortest_arc takes the vector to %s instead of %s", geo::str(rot(r, unit(a))).c_str(), geo::str(b).c_str());
    }
    for (auto a : D) for (auto b : D) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return geo::str(a) + geo::str(b); };
        auto r = shortest_arc(V(a), V(b));
        VP_CHECK(near(qlen(r), 1, 1e-4), "shortest_arc is not a unit quaternion");
        VP_CHECK(near(rot(r, a), b, 2e-3), "shortest_arc takes the vector to %s", geo::str(rot(r, a)).c_str());
        VP_CHECK(std::abs(rot_angle(quaternion_identity, r) - std::acos(std::min(1., std::max(-1., dt(a, b))))) < 3e-3, "shortest_arc turns by %g", rot_angle(quaternion_identity, r));
        for (double t : {0., 0.3, 2., PI, 5., -1.}) {
            auto e = QA(a, t);
            VP_CHECK(qeq(quaternion_axis_angle(V(a * 3), scalar(t)), dq(e), 1e-5), "quaternion_axis_angle");
            if (std::abs(n2(D3(V(a))) - 1) < 5e-8) VP_CHECK(qeq(quaternion_axis_angle_unit(V(a), scalar(t)), dq(e), 1e-5), "quaternion_axis_angle_unit");
        }
    }
}

VP_SCENARIO(matrices) {
    auto rows = lattice({-1, 0, 2});
    std::vector<matrix3x3> ms;
    for (size_t i = 0; i < rows.size(); ++i) for (size_t j = 0; j < rows.size(); ++j) for (size_t k = 0; k < rows.size(); ++k) ms.push_back({V(rows[i]), V(rows[j]), V(rows[k])});
    const matrix3x3 fixed[3] = {{vector3{1, 2, 3}, vector3{-1, 0, 4}, vector3{2, 2, -0.5f}}, {vector3{0, 1, 0}, vector3{0, 0, 1}, vector3{1, 0, 0}}, to_matrix3x3(Q(1, 2, 3, 4))};
    for (auto &m : ms) {
        if (!vp::begin()) continue;
        vp::describer() = [&] { return geo::str(D3(m.row[0])) + geo::str(D3(m.row[1])) + geo::str(D3(m.row[2])); };
        auto M = mat(m); double dm = det(M);
        vp::nontrivial(dm != 0);
        VP_CHECK(m.determinant() == scalar(dm), "determinant");
        VP_CHECK(eq(transpose(m), tr(M), 0), "transpose");
        for (auto &f : fixed) {
            VP_CHECK(eq(m * f, mul(M, mat(f)), 1e-6) && eq(f * m, mul(mat(f), M), 1e-6), "product");
            auto t = m; t *= f; VP_CHECK(eq(t, mul(M, mat(f)), 1e-6), "*=");
            t = m; t += f; auto u = m; u -= f;
            VP_CHECK(t == m + f && u == m - f, "+= or -=");
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VP_CHECK(t[i][j] == m[i][j] + f[i][j] && u[i][j] == m[i][j] - f[i][j], "sum or difference");
            bool all = true, lt = true, le = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { all = all && m[i][j] == f[i][j]; lt = lt && m[i][j] < f[i][j]; le = le && m[i][j] <= f[i][j]; }
            VP_CHECK((m == f) == all && (m != f) == !all && (m < f) == lt && (f > m) == lt && (m <= f) == le && (f >= m) == le, "comparison");
        }
        for (D3 v : {D3{1, -2, 3}, D3{0.5, 0, 1}}) {
            VP_CHECK(same(m * V(v), mul(M, v)) && same(V(v) * m, mul(tr(M), v)), "product with a vector");
            M3 dg{}; for (int i = 0; i < 3; ++i) dg[i][i] = v[i];
            VP_CHECK(eq(scale_matrix(m, V(v)), mul(M, dg), 0) && eq(diagonal_matrix(V(v)), dg, 0), "scale_matrix or diagonal_matrix");
            VP_CHECK(same(skew_matrix(V(v)) * m.row[0], cr(v, D3(m.row[0]))), "skew_matrix");
        }
        VP_CHECK(get_diagonal(m) == (vector3{m[0][0], m[1][1], m[2][2]}), "get_diagonal");
        for (int i = 0; i < 3; ++i) VP_CHECK(m.column(i) == (vector3{m[0][i], m[1][i], m[2][i]}) && m.column_dot(i, vector3{1, -2, 3}) == m[0][i] - 2 * m[1][i] + 3 * m[2][i], "column");
        VP_CHECK(matrix3x3_columns(m.row[0], m.row[1], m.row[2]) == transpose(m), "matrix3x3_columns");
        VP_CHECK(eq(m * scalar(2), mul(M, M3{{{2, 0, 0}, {0, 2, 0}, {0, 0, 2}}}), 0) && m * scalar(2) == scalar(2) * m, "scaling");
        M3 I{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, dI = I; for (int i = 0; i < 3; ++i) dI[i][i] = dm;
        VP_CHECK(eq(mul(M, mat(adjugate_matrix(m))), dI, 1e-6), "adjugate");
        auto inv = inverse_matrix(m);
        if (dm) VP_CHECK(eq(mul(M, mat(inv)), I, 1e-5) && eq(mul(mat(inv), M), I, 1e-5), "inverse");
        else VP_CHECK(inv == matrix3x3_zero, "the inverse of a singular matrix is not zero");
        // Symmetric matrices.
        matrix3x3 s = m; s[1][0] = s[0][1]; s[2][0] = s[0][2]; s[2][1] = s[1][2];
        if (det(mat(s)) != 0) VP_CHECK(eq(mul(mat(s), mat(inverse_matrix_symmetric(s))), I, 1e-5), "inverse of a symmetric matrix");
    }
    std::vector<double> angles = {-3, -1.5, -0.7, 0, 0.3, 1.2, PI / 2, -PI / 2, 2.5};
    for (double x : angles) for (double y : angles) for (double z : angles) {
        if (!vp::begin()) continue;
        vp::describe("angles %g %g %g", x, y, z);
        auto RX = M3{{{1, 0, 0}, {0, std::cos(x), -std::sin(x)}, {0, std::sin(x), std::cos(x)}}}, RY = M3{{{std::cos(y), 0, std::sin(y)}, {0, 1, 0}, {-std::sin(y), 0, std::cos(y)}}}, RZ = M3{{{std::cos(z), -std::sin(z), 0}, {std::sin(z), std::cos(z), 0}, {0, 0, 1}}};
        VP_CHECK(eq(rotation_matrix_x(scalar(x)), RX, 1e-6) && eq(rotation_matrix_y(scalar(y)), RY, 1e-6) && eq(rotation_matrix_z(scalar(z)), RZ, 1e-6), "rotation about an axis");
        auto m = rotation_matrix_xyz(scalar(x), scalar(y), scalar(z));
        VP_CHECK(eq(m, mul(mul(RX, RY), RZ), 1e-6), "rotation_matrix_xyz");
        auto e = get_euler_angles_xyz(m);
        VP_CHECK(finite(D3(e)), "Euler angles are not finite");
        VP_CHECK(eq(rotation_matrix_xyz(e.x, e.y, e.z), mat(m), 1e-3), "Euler angles %s give another rotation", geo::str(D3(e)).c_str());
    }
}
