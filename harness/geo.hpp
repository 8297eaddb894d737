// Double precision oracle geometry, independent of the code under test, and input lattices.
#ifndef H_GEO_HPP
#define H_GEO_HPP
#include "vp.hpp"
#include "edyn/math/vector3.hpp"
#include "edyn/math/vector2.hpp"
#include "edyn/math/quaternion.hpp"
#include "edyn/math/matrix3x3.hpp"
#include "edyn/math/coordinate_axis.hpp"
#include <algorithm>
#include <array>
#include <string>
#include <vector>

namespace geo {
using edyn::scalar;
using edyn::vector3;
using edyn::vector2;
using edyn::quaternion;

struct D3 {
    double x = 0, y = 0, z = 0;
    D3() = default;
    D3(double a, double b, double c) : x(a), y(b), z(c) {}
    D3(const vector3 &v) : x(v.x), y(v.y), z(v.z) {}
    double &operator[](size_t i) { return i == 0 ? x : i == 1 ? y : z; }
    double operator[](size_t i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline D3 operator+(D3 a, D3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline D3 operator-(D3 a, D3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline D3 operator-(D3 a) { return {-a.x, -a.y, -a.z}; }
inline D3 operator*(D3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline D3 operator*(double s, D3 a) { return a * s; }
inline D3 operator/(D3 a, double s) { return {a.x / s, a.y / s, a.z / s}; }
inline double dt(D3 a, D3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline D3 cr(D3 a, D3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double n2(D3 a) { return dt(a, a); }
inline double nm(D3 a) { return std::sqrt(n2(a)); }
inline D3 unit(D3 a) { return a / nm(a); }
inline vector3 V(D3 a) { return {scalar(a.x), scalar(a.y), scalar(a.z)}; }

struct DQ { double x, y, z, w; };
inline DQ dq(const quaternion &q) { return {double(q.x), double(q.y), double(q.z), double(q.w)}; }
// Rotation by the rotation matrix of a quaternion (textbook form).
inline D3 rot(const DQ &q, D3 v) {
    double n = q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, s = 2 / n;
    double m[3][3] = {
        {1 - s * (q.y * q.y + q.z * q.z), s * (q.x * q.y - q.z * q.w), s * (q.x * q.z + q.y * q.w)},
        {s * (q.x * q.y + q.z * q.w), 1 - s * (q.x * q.x + q.z * q.z), s * (q.y * q.z - q.x * q.w)},
        {s * (q.x * q.z - q.y * q.w), s * (q.y * q.z + q.x * q.w), 1 - s * (q.x * q.x + q.y * q.y)}};
    return {m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z, m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z, m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z};
}
inline D3 rot(const quaternion &q, D3 v) { return rot(dq(q), v); }
inline D3 unrot(const quaternion &q, D3 v) { auto d = dq(q); return rot(DQ{-d.x, -d.y, -d.z, d.w}, v); }
inline D3 axis_dir(int a) { D3 d; d[size_t(a)] = 1; return d; }
inline D3 to_obj(D3 p, D3 pos, const quaternion &q) { return unrot(q, p - pos); }
inline D3 to_world(D3 p, D3 pos, const quaternion &q) { return pos + rot(q, p); }

inline bool finite(D3 a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }
inline bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b))); }
inline bool near(D3 a, D3 b, double tol) { return near(a.x, b.x, tol) && near(a.y, b.y, tol) && near(a.z, b.z, tol); }

inline std::string str(D3 a) { char b[96]; snprintf(b, sizeof b, "(%.9g, %.9g, %.9g)", a.x, a.y, a.z); return b; }
inline std::string str(const quaternion &q) { char b[128]; snprintf(b, sizeof b, "[%.9g, %.9g, %.9g, %.9g]", double(q.x), double(q.y), double(q.z), double(q.w)); return b; }

inline std::vector<D3> lattice(std::vector<double> vs) {
    std::vector<D3> r;
    for (double x : vs) for (double y : vs) for (double z : vs) r.push_back({x, y, z});
    return r;
}
inline std::vector<D3> lattice(std::vector<double> xs, std::vector<double> ys, std::vector<double> zs) {
    std::vector<D3> r;
    for (double x : xs) for (double y : ys) for (double z : zs) r.push_back({x, y, z});
    return r;
}
// Unit directions: all non-zero sign patterns and a few skew ones.
inline std::vector<D3> directions(bool skew = true) {
    std::vector<D3> r;
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
        if (x || y || z) r.push_back(unit({double(x), double(y), double(z)}));
    if (skew) for (D3 d : {D3{1, 2, 3}, D3{-3, 1, 2}, D3{2, -3, 1}, D3{5, -1, 0.25}, D3{0.1, 0.2, -4}, D3{-7, 0.5, -0.3}}) r.push_back(unit(d));
    return r;
}
inline quaternion Q(double x, double y, double z, double w) {
    double n = std::sqrt(x * x + y * y + z * z + w * w);
    return {scalar(x / n), scalar(y / n), scalar(z / n), scalar(w / n)};
}
inline quaternion QA(D3 axis, double angle) {
    axis = unit(axis);
    double s = std::sin(angle / 2);
    return {scalar(axis.x * s), scalar(axis.y * s), scalar(axis.z * s), scalar(std::cos(angle / 2))};
}
constexpr double PI = 3.14159265358979323846;
inline std::vector<quaternion> orientations(int level) {
    std::vector<quaternion> r = {Q(0, 0, 0, 1), Q(1, 0, 0, 1), Q(0, 1, 0, 1), Q(0, 0, 1, 1), Q(1, 2, 3, 4), QA({0, 1, 1}, 0.7)};
    if (level > 0) for (auto q : {Q(1, 0, 0, 0), Q(0, 1, 0, 0), Q(0, 0, 1, 0), Q(1, 1, 1, 1), Q(-1, 1, 1, 1), Q(3, -1, 2, -0.5), QA({1, -2, 0.5}, 2.5)}) r.push_back(q);
    return r;
}

// Squared distance from a point to a segment, exact up to double rounding.
inline double d2_point_segment(D3 p, D3 a, D3 b) {
    D3 v = b - a;
    double vv = n2(v);
    double t = vv > 0 ? std::min(1., std::max(0., dt(p - a, v) / vv)) : 0;
    return n2(p - (a + v * t));
}
// Squared distance between two segments: the minimum is at a vertex of the parameter
// square, on one of its edges, or at the interior critical point.
inline double d2_segment_segment(D3 p1, D3 q1, D3 p2, D3 q2) {
    double best = std::min(std::min(d2_point_segment(p1, p2, q2), d2_point_segment(q1, p2, q2)),
                           std::min(d2_point_segment(p2, p1, q1), d2_point_segment(q2, p1, q1)));
    D3 d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2;
    double a = n2(d1), e = n2(d2), b = dt(d1, d2), den = a * e - b * b;
    if (den > 1e-12 * a * e && den > 0) {
        double c = dt(d1, r), f = dt(d2, r);
        double s = (b * f - c * e) / den, t = (a * f - b * c) / den;
        if (s > 0 && s < 1 && t > 0 && t < 1) best = std::min(best, n2((p1 + d1 * s) - (p2 + d2 * t)));
    }
    return best;
}
}
#endif
