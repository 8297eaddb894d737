// Double precision, independent of the library's own algebra, and measured limits.
#ifndef DVEC_HPP
#define DVEC_HPP
#include "vp.hpp"
#include "edyn/math/quaternion.hpp"
#include "edyn/math/vector3.hpp"
#include <map>
#include <string>
namespace {
using edyn::vector3; using edyn::quaternion; using edyn::scalar;
struct V { double x = 0, y = 0, z = 0; };
V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V operator*(double s, V a) { return {s * a.x, s * a.y, s * a.z}; }
double dt(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V cr(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
double len(V a) { return std::sqrt(dt(a, a)); }
V v(const vector3 &a) { return {a.x, a.y, a.z}; }
vector3 ev(V a) { return {scalar(a.x), scalar(a.y), scalar(a.z)}; }
struct Q { double x = 0, y = 0, z = 0, w = 1; };
Q q(const quaternion &a) { return {a.x, a.y, a.z, a.w}; }
Q qm(Q a, Q b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
Q qc(Q a) { return {-a.x, -a.y, -a.z, a.w}; }
V rot(Q a, V b) { V u{a.x, a.y, a.z}; V t = 2.0 * cr(u, b); return b + a.w * t + cr(u, t); }
Q turn(V axis, double ang) { double s = std::sin(ang / 2) / len(axis); return {axis.x * s, axis.y * s, axis.z * s, std::cos(ang / 2)}; }

std::map<std::string, double> &maxima() { static auto *m = new std::map<std::string, double>; return *m; }
struct printer { ~printer() { if (std::getenv("VP_MEASURE")) for (auto &[k, x] : maxima()) std::printf("%-60s %.6g\n", k.c_str(), x); } } print_maxima;
std::string &tag() { static auto *t = new std::string; return *t; } // tells measurements apart
void within(const char *what, double value, double limit) {
    static const bool measuring = std::getenv("VP_MEASURE");
    if (measuring) { auto &m = maxima()[what + tag()]; if (!(value <= m)) m = value; return; }
    VP_CHECK(value <= limit, "%s: %.9g, more than %.9g", what, value, limit);
}
}
#endif
