// Bodies, Jacobians and reference formulas for constraint rows.
#include "geo.hpp"
#include "edyn/constraints/constraint_row.hpp"
#include "edyn/constraints/constraint_row_options.hpp"
#include "edyn/constraints/constraint_row_friction.hpp"
#include "edyn/constraints/constraint_row_spin_friction.hpp"
using namespace edyn;
using namespace geo;

namespace {
using J4 = std::array<D3, 4>;
struct mat { double m[3][3]; };
struct body { double im; mat I; const char *name; };
D3 mul(const mat &m, D3 v) { D3 r; for (int i = 0; i < 3; ++i) r[i] = m.m[i][0] * v.x + m.m[i][1] * v.y + m.m[i][2] * v.z; return r; }
matrix3x3 M(const mat &m) { return {{vector3{scalar(m.m[0][0]), scalar(m.m[0][1]), scalar(m.m[0][2])}, vector3{scalar(m.m[1][0]), scalar(m.m[1][1]), scalar(m.m[1][2])}, vector3{scalar(m.m[2][0]), scalar(m.m[2][1]), scalar(m.m[2][2])}}}; }
std::vector<body> bodies() {
    return {{0, {{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}}, "static"}, {1, {{{2.5, 0, 0}, {0, 2.5, 0}, {0, 0, 2.5}}}, "unit sphere"},
            {0.125, {{{0.5, 0, 0}, {0, 0.25, 0}, {0, 0, 1}}}, "box"}, {2, {{{2, 0.5, -0.25}, {0.5, 1, 0.125}, {-0.25, 0.125, 3}}}, "rotated box"}, {0.5, {{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}}, "not rotating"}};
}
std::vector<J4> jacobians() {
    return {{D3{0, 1, 0}, D3{0, 0, 0}, D3{0, -1, 0}, D3{0, 0, 0}}, {D3{0.6, 0.8, 0}, D3{0.5, -1, 0.25}, D3{-0.6, -0.8, 0}, D3{-2, 0.5, 1}},
            {D3{0, 0, 0}, D3{0, 0, 1}, D3{0, 0, 0}, D3{0, 0, -1}}, {D3{1, 0, 0}, D3{0, 2, 0}, D3{0, 0, 0}, D3{0, 0, 0}}, {D3{0, 0, 0}, D3{0, 0, 0}, D3{0, 0, -1}, D3{1, 0.5, 0}},
            {D3{-1, 2, 0.5}, D3{0.25, 0, 3}, D3{0.5, 0.5, 0.5}, D3{1, -1, 1}}};
}
struct vel { D3 v[4]; };
std::vector<vel> velocities() { return {{{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}}, {{{1, -2, 0.5}, {0.25, 1, -1}, {0, 3, 0}, {-0.5, 0.5, 2}}}, {{{0, -9, 0}, {0, 0, 4}, {2, 0, 0}, {0, 0, 0}}}, {{{-0.125, 0.5, 0}, {0, 0, 0}, {0, 0, -0.25}, {1, 1, 1}}}}; }
double along(const J4 &J, const D3 *v) { return dt(J[0], v[0]) + dt(J[1], v[1]) + dt(J[2], v[2]) + dt(J[3], v[3]); }
double jmj(const J4 &J, const body &a, const body &b) { return n2(J[0]) * a.im + dt(mul(a.I, J[1]), J[1]) + n2(J[2]) * b.im + dt(mul(b.I, J[3]), J[3]); }
void response(const J4 &J, const body &a, const body &b, double k, D3 *v) { v[0] = v[0] + J[0] * (a.im * k); v[1] = v[1] + mul(a.I, J[1]) * k; v[2] = v[2] + J[2] * (b.im * k); v[3] = v[3] + mul(b.I, J[3]) * k; }
struct store { delta_linvel dvA, dvB; delta_angvel dwA, dwB;
    void set(const vel &u) { dvA = V(u.v[0]); dwA = V(u.v[1]); dvB = V(u.v[2]); dwB = V(u.v[3]); }
    void get(D3 *v) const { v[0] = dvA; v[1] = dwA; v[2] = dvB; v[3] = dwB; } };
constraint_row make(const J4 &J, const body &a, const body &b, store &s) {
    constraint_row r{}; for (int i = 0; i < 4; ++i) r.J[i] = V(J[i]); r.inv_mA = scalar(a.im); r.inv_mB = scalar(b.im); r.inv_IA = M(a.I); r.inv_IB = M(b.I);
    r.dvA = &s.dvA; r.dvB = &s.dvB; r.dwA = &s.dwA; r.dwB = &s.dwB; return r;
}
struct lim { double lo, hi; };
const lim limits[] = {{-1e30, 1e30}, {0, 1e30}, {-1, 1}, {0, 0}, {-2, -0.5}, {0.25, 3}};
}

