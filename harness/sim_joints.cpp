// Two bodies and one joint, for every type of joint and every combination of the grids below.
#include "simworld.hpp"
#include "dvec.hpp"
#include "edyn/math/quaternion.hpp"
#include "edyn/math/matrix3x3.hpp"
#include "edyn/constraints/cone_constraint.hpp"
#include "edyn/constraints/cvjoint_constraint.hpp"
#include "edyn/constraints/distance_constraint.hpp"
#include "edyn/constraints/generic_constraint.hpp"
#include "edyn/constraints/gravity_constraint.hpp"
#include "edyn/constraints/hinge_constraint.hpp"
#include "edyn/constraints/point_constraint.hpp"
#include "edyn/constraints/soft_distance_constraint.hpp"
#include <array>
using namespace edyn;
namespace {
struct body_cfg { rigidbody_kind kind = rigidbody_kind::rb_dynamic; double m = 1; V I{0.4, 0.3, 0.2}; V pos; Q orn; V lv, av; bool com = false; V c{0.1, -0.2, 0.15}; };
struct world : sim::base {
    std::array<entt::entity, 2> b; std::array<body_cfg, 2> cfg; entt::entity joint;
    world(body_cfg A, body_cfg B, V g) : cfg{A, B} {
        set_gravity(reg, ev(g));
        for (int i = 0; i < 2; ++i) {
            auto &k = cfg[i]; rigidbody_def d; d.kind = k.kind; d.mass = scalar(k.m); d.inertia = diagonal_matrix(ev(k.I));
            d.position = ev(k.pos); d.orientation = quaternion{scalar(k.orn.x), scalar(k.orn.y), scalar(k.orn.z), scalar(k.orn.w)}; d.linvel = ev(k.lv); d.angvel = ev(k.av);
            if (k.com) d.center_of_mass = ev(k.c);
            d.sleeping_disabled = true;
            if (k.kind == rigidbody_kind::rb_static) d.linvel = d.angvel = vector3_zero;
            b[i] = make_rigidbody(reg, d);
        }
    }
    V pos(int i) { return v(reg.get<position>(b[i])); }
    Q orn(int i) { return q(reg.get<orientation>(b[i])); }
    V org(int i) { auto *o = reg.try_get<origin>(b[i]); return o ? v(*o) : pos(i); }
    V lv(int i) { auto *o = reg.try_get<linvel>(b[i]); return o ? v(*o) : V{}; }
    V av(int i) { auto *o = reg.try_get<angvel>(b[i]); return o ? v(*o) : V{}; }
    V at(int i, V local) { return org(i) + rot(orn(i), local); }
    V local(int i, V w) { return rot(qc(orn(i)), w - org(i)); }
    V spin(int i) { V w = rot(qc(orn(i)), av(i)); auto &I = cfg[i].I; return rot(orn(i), V{I.x * w.x, I.y * w.y, I.z * w.z}); }
    bool dyn(int i) { return cfg[i].kind == rigidbody_kind::rb_dynamic; }
    V momentum() { return cfg[0].m * lv(0) + cfg[1].m * lv(1); }
    double kinetic() { double e = 0; for (int i = 0; i < 2; ++i) if (dyn(i)) e += cfg[i].m * dt(lv(i), lv(i)) / 2 + dt(av(i), spin(i)) / 2; return e; }
    matrix3x3 frame(int i, V x, V y) { V z = cr(x, y); auto l = [&](V a) { return ev(rot(qc(orn(i)), a)); }; return matrix3x3_columns(l(x), l(y), l(z)); }
    void check_alive(V p0, Q q0, bool still) {
        for (int i = 0; i < 2; ++i) {
            VP_CHECK(std::isfinite(len(pos(i))) && std::isfinite(len(org(i))) && std::isfinite(orn(i).w) && std::isfinite(len(lv(i))) && std::isfinite(len(av(i))), "body %d is nowhere", i);
            auto o = orn(i); VP_CHECK(std::abs(o.x * o.x + o.y * o.y + o.z * o.z + o.w * o.w - 1) < 1e-3, "the orientation of body %d is not a rotation", i);
            if (cfg[i].com) VP_CHECK(len(org(i) + rot(orn(i), cfg[i].c) - pos(i)) < 1e-4, "the centre of mass of body %d is not where it should be", i);
        }
        if (still) { auto o = orn(0); VP_CHECK(len(pos(0) - p0) == 0 && std::abs(o.x - q0.x) + std::abs(o.y - q0.y) + std::abs(o.z - q0.z) + std::abs(o.w - q0.w) < 1e-5, "a body that cannot be moved by a joint was"); }
    }
};
const Q ORNS[] = {{}, turn({0, 0, 1}, 1.2), turn({1, 2, -1}, 2.3), turn({0, 1, 0}, -1.5707963)};
const V LINS[] = {{}, {0.5, -1, 0.3}, {-1.5, 0, 1}};
const V ANGS[] = {{}, {1.5, 0, -1}, {0, 2.5, 0.5}, {0.3, 0.4, 2}};
const rigidbody_kind KINDS[] = {rigidbody_kind::rb_dynamic, rigidbody_kind::rb_static, rigidbody_kind::rb_kinematic};
const V GRAVS[] = {{}, {0, -9.8, 0}};
const double MASSES[] = {1, 0.25, 5};

struct grid { int kind, com, o0, o1, l, a, g, m; std::string text() const { char s[160]; std::snprintf(s, sizeof s, "A %s, centre of mass %d, orientations %d %d, velocity %d, spin %d, gravity %d, mass %d", kind == 0 ? "dynamic" : kind == 1 ? "static" : "kinematic", com, o0, o1, l, a, g, m); return s; } };
body_cfg bodyA(const grid &c) { body_cfg b; b.kind = KINDS[c.kind]; b.m = 1.5; b.pos = {0.3, 1, -0.2}; b.orn = ORNS[c.o0]; b.com = c.com & 1; if (c.kind == 0) { b.lv = LINS[c.l]; } return b; }
body_cfg bodyB(const grid &c) { body_cfg b; b.m = MASSES[c.m]; b.I = MASSES[c.m] * V{0.2, 0.3, 0.25}; b.pos = {1.3, 0.6, 0.4}; b.orn = ORNS[c.o1]; b.com = c.com & 2; b.av = ANGS[c.a]; b.lv = -1.0 * LINS[c.l]; return b; }
template<typename F> void each(F f) {
    bool t = vp::thorough();
    for (int kind = 0; kind < 3; ++kind) for (int com = 0; com < 4; ++com) for (int o0 = 0; o0 < (t ? 4 : 3); ++o0) for (int o1 = 0; o1 < (t ? 4 : 3); ++o1)
    for (int l = 0; l < (t ? 3 : 2); ++l) for (int a = 0; a < 4; ++a) for (int g = 0; g < 2; ++g) for (int m = 0; m < (t ? 3 : 2); ++m) {
        if (kind != 0 && (com & 1)) continue;
        if (!vp::begin()) continue;
        grid c{kind, com, o0, o1, l, a, g, m};
        vp::describer() = [c] { return c.text(); };
        f(c);
        vp::describer() = nullptr;
    }
}
// Runs n steps. Whatever the joint does, momentum is conserved; `torque_free` joints conserve angular momentum too.
template<typename F> void run(world &w, const grid &c, int n, bool angular, F after) {
    V p0 = w.pos(0); Q q0 = w.orn(0); V g = GRAVS[c.g]; double h = 1. / 60;
    for (int s = 0; s < n; ++s) {
        V x[2] = {w.pos(0), w.pos(1)}; V P = w.momentum(); V L = cr(x[0], w.cfg[0].m * w.lv(0)) + cr(x[1], w.cfg[1].m * w.lv(1)) + w.spin(0) + w.spin(1); Q o[2] = {w.orn(0), w.orn(1)};
        w.tick(); vp::transitions();
        w.check_alive(p0, q0, c.kind != 0);
        if (c.kind == 0) {
            double M = w.cfg[0].m + w.cfg[1].m;
            V dP = w.momentum() - P - (h * M) * g;
            within("momentum out of nothing", len(dP) / M, 1e-4);
            if (angular) {
                // With the positions and orientations before the step, where the impulses were applied.
                V L1 = cr(x[0], w.cfg[0].m * (w.lv(0) - h * g)) + cr(x[1], w.cfg[1].m * (w.lv(1) - h * g));
                for (int i = 0; i < 2; ++i) { V a = rot(qc(o[i]), w.av(i)); auto &I = w.cfg[i].I; L1 = L1 + rot(o[i], V{I.x * a.x, I.y * a.y, I.z * a.z}); }
                within("angular momentum out of nothing", len(L1 - L), 5e-4);
            }
        }
        after(s);
        vp::states();
    }
    vp::nontrivial(true);
}
const V X{1, 0, 0}, Y{0, 1, 0}, Z{0, 0, 1};
}

VP_SCENARIO(points) {
    each([](const grid &c) {
        world w(bodyA(c), bodyB(c), GRAVS[c.g]); V P{0.8, 0.9, 0.1}; V pA = w.local(0, P), pB = w.local(1, P);
        w.joint = make_constraint<point_constraint>(w.reg, w.b[0], w.b[1], [&](point_constraint &k) { k.pivot = {ev(pA), ev(pB)}; if (c.a == 1 || c.o0 == 1) k.friction_torque = scalar(0.3); });
        double e0 = 0;
        run(w, c, 90, true, [&](int s) {
            within("gap of a point joint", len(w.at(0, pA) - w.at(1, pB)), 0.05);
            if (s == 0) e0 = w.kinetic();
            if (c.g == 0) within("energy from a point joint", w.kinetic() - e0, 0.02 * e0 + 1e-3);
        });
    });
}
VP_SCENARIO(distances) {
    each([](const grid &c) {
        world w(bodyA(c), bodyB(c), GRAVS[c.g]); V pA{0.2, 0.1, 0}, pB{-0.1, 0.2, 0.1}; double D = len(w.at(0, pA) - w.at(1, pB));
        w.joint = make_constraint<distance_constraint>(w.reg, w.b[0], w.b[1], [&](distance_constraint &k) { k.pivot = {ev(pA), ev(pB)}; k.distance = scalar(D); });
        double e0 = 0;
        run(w, c, 90, true, [&](int s) {
            within("error of a distance joint", std::abs(len(w.at(0, pA) - w.at(1, pB)) - D), 0.05);
            if (s == 0) e0 = w.kinetic();
            if (c.g == 0) within("energy from a distance joint", w.kinetic() - e0, 0.02 * e0 + 1e-3);
        });
    });
}
VP_SCENARIO(hinges) {
    each([](const grid &c) {
        world w(bodyA(c), bodyB(c), GRAVS[c.g]); V P{0.8, 0.9, 0.1}; V pA = w.local(0, P), pB = w.local(1, P);
        V ax = {0, 0.6, 0.8}; V a[2] = {rot(qc(w.orn(0)), ax), rot(qc(w.orn(1)), ax)};
        w.joint = make_constraint<hinge_constraint>(w.reg, w.b[0], w.b[1], [&](hinge_constraint &k) { k.pivot = {ev(pA), ev(pB)}; k.set_axes(ev(a[0]), ev(a[1])); k.reset_angle(w.reg.get<orientation>(w.b[0]), w.reg.get<orientation>(w.b[1])); });
        double e0 = 0;
        run(w, c, 90, true, [&](int s) {
            within("gap of a hinge", len(w.at(0, pA) - w.at(1, pB)), 0.05);
            within("misaligned hinge", len(cr(rot(w.orn(0), a[0]), rot(w.orn(1), a[1]))), 0.05);
            if (s == 0) e0 = w.kinetic();
            if (c.g == 0) within("energy from a hinge", w.kinetic() - e0, 0.02 * e0 + 1e-3);
        });
    });
}

namespace {
const V FX{0, 0.6, 0.8}, FY{1, 0, 0};
double angle_between(Q oA, const matrix3x3 &fA, Q oB, const matrix3x3 &fB) {
    V y = rot(oB, v(fB.column(1))); return std::atan2(dt(y, rot(oA, v(fA.column(2)))), dt(y, rot(oA, v(fA.column(1)))));
}
double wrap(double a) { while (a > M_PI) a -= 2 * M_PI; while (a < -M_PI) a += 2 * M_PI; return a; }
}
// Every option of a hinge on its own.
VP_SCENARIO(hinge_options) {
    for (int opt = 0; opt < 8; ++opt) each([opt](const grid &c) {
        if (c.l == 1 && c.m == 1) return;
        world w(bodyA(c), bodyB(c), GRAVS[c.g]); V P{0.8, 0.9, 0.1}; V pA = w.local(0, P), pB = w.local(1, P);
        matrix3x3 fA = w.frame(0, FX, FY), fB = w.frame(1, FX, FY);
        w.joint = make_constraint<hinge_constraint>(w.reg, w.b[0], w.b[1], [&](hinge_constraint &k) {
            k.pivot = {ev(pA), ev(pB)}; k.frame = {fA, fB}; k.reset_angle(w.reg.get<orientation>(w.b[0]), w.reg.get<orientation>(w.b[1]));
            if (opt <= 2 || opt == 6) { k.angle_min = scalar(-0.4); k.angle_max = scalar(0.6); }
            if (opt == 1) k.limit_restitution = scalar(0.5);
            if (opt == 2) { k.bump_stop_angle = scalar(0.2); k.bump_stop_stiffness = 5; }
            if (opt == 3) k.torque = scalar(0.4);
            if (opt == 4) k.damping = scalar(0.5);
            if (opt == 5 || opt == 6) { k.stiffness = 2; k.rest_angle = scalar(0.3); }
            if (opt == 7) { k.torque = 3; k.speed = scalar(1.5); }
        });
        double e0 = 0, first = 0, u0 = 0, last = 0, total = 0;
        run(w, c, 90, true, [&](int s) {
            auto &k = w.reg.get<hinge_constraint>(w.joint);
            within("gap of a hinge", len(w.at(0, pA) - w.at(1, pB)), 0.08);
            within("misaligned hinge", len(cr(rot(w.orn(0), v(fA.column(0))), rot(w.orn(1), v(fB.column(0))))), 0.05);
            double ang = angle_between(w.orn(0), fA, w.orn(1), fB); total += wrap(ang - last); last = ang;
            double u = dt(w.av(0) - w.av(1), rot(w.orn(0), v(fA.column(0))));
            if (opt <= 2 || opt == 6) { within("hinge beyond its limits", std::max(total - 0.6, -0.4 - total), 0.02); }
            (void)k;
            if (s == 0) e0 = w.kinetic() + (opt == 5 || opt == 6 ? total * total - 0.6 * total + 0.09 : 0);
            if (c.g == 0 && (opt <= 1 || opt == 3 || opt == 4)) within("energy from a hinge", w.kinetic() - e0, 0.02 * e0 + 1e-3);
            if (c.g == 0 && (opt == 5)) within("energy from a hinge with a spring", w.kinetic() + total * total - 0.6 * total + 0.09 - e0, 0.05 * e0 + 1e-2);
            if (c.g == 0 && c.kind != 0 && (opt == 3 || opt == 4)) { if (s) within(opt == 3 ? "friction speeds up a hinge" : "damping speeds up a hinge", std::abs(u) - u0, 0.02); if (s == 0) first = std::abs(u); if (s == 89 && first > 0.2) within(opt == 3 ? "speed left by hinge friction" : "speed left by hinge damping", std::abs(u) / first, 0.9); }
            if (opt == 7 && c.g == 0 && s == 89) { within("motor turns backwards", -u, 0); within("motor too fast", u - 1.5, 0); }
            u0 = std::abs(u);
        });
    });
}
VP_SCENARIO(cvjoints) {
    for (int opt = 0; opt < 10; ++opt) each([opt](const grid &c) {
        if (c.l == 1 && c.m == 1) return;
        world w(bodyA(c), bodyB(c), GRAVS[c.g]); V P{0.8, 0.9, 0.1}; V pA = w.local(0, P), pB = w.local(1, P);
        matrix3x3 fA = w.frame(0, FX, FY), fB = w.frame(1, FX, FY);
        w.joint = make_constraint<cvjoint_constraint>(w.reg, w.b[0], w.b[1], [&](cvjoint_constraint &k) {
            k.pivot = {ev(pA), ev(pB)}; k.frame = {fA, fB};
            if (opt >= 1 && opt <= 6) { k.twist_min = scalar(-0.4); k.twist_max = scalar(0.6); }
            if (opt == 2) k.twist_restitution = scalar(0.5);
            if (opt == 3) { k.twist_bump_stop_angle = scalar(0.2); k.twist_bump_stop_stiffness = 5; }
            if (opt == 4) k.twist_friction_torque = scalar(0.4);
            if (opt == 5) k.twist_damping = scalar(0.5);
            if (opt == 6) { k.twist_stiffness = 2; k.twist_rest_angle = scalar(0.3); }
            if (opt == 7) k.bend_friction_torque = scalar(0.4);
            if (opt == 8) k.bend_damping = scalar(0.5);
            if (opt == 9) { k.bend_stiffness = 2; k.rest_direction = fA.column(0); }
            k.reset_angle(w.reg.get<orientation>(w.b[0]), w.reg.get<orientation>(w.b[1]));
        });
        double e0 = 0, first = 0; bool bent = false;
        run(w, c, 90, false, [&](int s) {
            auto &k = w.reg.get<cvjoint_constraint>(w.joint);
            V xa = rot(w.orn(0), v(fA.column(0))), xb = rot(w.orn(1), v(fB.column(0)));
            // The twist: turn B so that its axis is that of A.
            V ax = cr(xb, xa); double t = std::acos(std::max(-1., std::min(1., dt(xa, xb)))); Q o = len(ax) > 1e-9 ? qm(turn(ax, t), w.orn(1)) : w.orn(1);
            double twist = angle_between(w.orn(0), fA, o, fB);
            bent = bent || dt(xa, xb) < 0.3; // a joint this bent is of no use
            if (bent) return;
            within("gap of a cv joint", len(w.at(0, pA) - w.at(1, pB)), 0.15);
            if (!bent && (opt == 0 || opt > 6)) within("twisted cv joint", std::abs(twist), 0.2);
            if (!bent && opt >= 1 && opt <= 6) within("cv joint beyond its limits", std::max(twist - 0.6, -0.4 - twist), 0.15);
            (void)k;
            if (s == 0) e0 = w.kinetic();
            if (c.g == 0 && (opt <= 2 || opt == 4 || opt == 5 || opt == 7 || opt == 8)) within("energy from a cv joint", w.kinetic() - e0, 0.03 * e0 + 0.02);
            double bend = len(w.av(0) - w.av(1));
            if (c.g == 0 && c.kind != 0 && (opt == 7 || opt == 8)) { if (s == 0) first = bend; if (s == 89 && first > 0.2) within(opt == 7 ? "bending left by friction" : "bending left by damping", bend / first, 0.8); }
        });
    });
}

// Generic joints: each way of moving free, limited, locked or with one of its options, the others locked.
VP_SCENARIO(generics) {
    for (int dof = -1; dof < 6; ++dof) for (int opt = 0; opt < 8; ++opt) each([dof, opt](const grid &c) {
        if ((c.l == 1 && c.m == 1) || (dof < 0 && opt) || (dof >= 0 && c.com == 1) || c.o0 == 1) return;
        world w(bodyA(c), bodyB(c), GRAVS[c.g]); V P{0.8, 0.9, 0.1}; V pA = w.local(0, P), pB = w.local(1, P);
        matrix3x3 fA = w.frame(0, FX, FY), fB = w.frame(1, FX, FY);
        w.joint = make_constraint<generic_constraint>(w.reg, w.b[0], w.b[1], [&](generic_constraint &k) {
            k.pivot = {ev(pA), ev(pB)}; k.frame = {fA, fB};
            auto set = [&](auto &d, auto &lo, auto &hi, auto &bump, auto &fric, auto &rest) {
                if (opt == 0) d.limit_enabled = false;
                else if (opt == 1) { lo = scalar(-0.3); hi = scalar(0.4); }
                else if (opt == 2) { lo = scalar(-0.3); hi = scalar(0.4); d.limit_restitution = scalar(0.5); }
                else if (opt == 3) { lo = scalar(-0.3); hi = scalar(0.4); bump = scalar(0.15); d.bump_stop_stiffness = 5; }
                else if (opt == 4) { d.limit_enabled = false; fric = scalar(0.4); }
                else if (opt == 5) { d.limit_enabled = false; d.damping = scalar(0.5); }
                else if (opt == 6) { d.limit_enabled = false; d.spring_stiffness = 4; rest = scalar(0.2); }
                else { lo = hi = scalar(0.2); }
            };
            if (dof >= 0 && dof < 3) { auto &d = k.linear_dofs[dof]; set(d, d.offset_min, d.offset_max, d.bump_stop_length, d.friction_force, d.rest_offset); }
            if (dof >= 3) { auto &d = k.angular_dofs[dof - 3]; set(d, d.angle_min, d.angle_max, d.bump_stop_angle, d.friction_torque, d.rest_angle); }
        });
        double e0 = 0, first = 0; bool far = false;
        run(w, c, 90, false, [&](int s) {
            V off = w.at(1, pB) - w.at(0, pA); double rel[6];
            for (int i = 0; i < 3; ++i) rel[i] = dt(off, rot(w.orn(0), v(fA.column(i))));
            V xa = rot(w.orn(0), v(fA.column(0))), xb = rot(w.orn(1), v(fB.column(0)));
            V ax = cr(xb, xa); double t = std::acos(std::max(-1., std::min(1., dt(xa, xb)))); Q o = len(ax) > 1e-9 ? qm(turn(ax, t), w.orn(1)) : w.orn(1);
            rel[3] = angle_between(w.orn(0), fA, o, fB);
            rel[4] = std::asin(std::max(-1., std::min(1., dt(xb, rot(w.orn(0), v(fA.column(2)))))));
            rel[5] = std::asin(std::max(-1., std::min(1., dt(xb, rot(w.orn(0), v(fA.column(1)))))));
            for (int i = 0; i < 6; ++i) far = far || std::abs(rel[i]) > 0.6;
            if (far) return;
            for (int i = 0; i < 6; ++i) {
                const char *what = i < 3 ? (i == dof ? "limited offset" : "locked offset") : (i == dof ? "limited angle" : "locked angle");
                if (i != dof) { if (opt != 7 || s > 60) within(what, std::abs(rel[i]), opt == 0 && dof < 3 ? 0.35 : 0.15); }
                else if (opt >= 1 && opt <= 3) within(what, std::max(rel[i] - 0.4, -0.3 - rel[i]), 0.1);
                else if (opt == 7 && s > 60) within(i < 3 ? "offset locked elsewhere" : "angle locked elsewhere", std::abs(rel[i] - 0.2), 0.1);
            }
            if (s == 0) e0 = w.kinetic();
            if (c.g == 0 && (dof < 0 || (dof == 3 && (opt <= 1 || opt == 4 || opt == 5)))) within("energy from a generic joint", w.kinetic() - e0, 0.02 * e0 + 1e-3);
            double u = dof < 0 ? 0 : dof < 3 ? dt(w.lv(1) - w.lv(0), rot(w.orn(0), v(fA.column(dof)))) : dt(w.av(1) - w.av(0), rot(w.orn(0), v(fA.column(dof - 3))));
            if (c.g == 0 && c.kind != 0 && (opt == 4 || opt == 5)) { if (s == 0) first = std::abs(u); if (s == 89 && first > 0.3) within(opt == 4 ? "speed left by friction" : "speed left by damping", std::abs(u) / first, 0.95); }
        });
    });
}

// The point of B stays in the cone of A.
VP_SCENARIO(cones) {
    for (int opt = 0; opt < 6; ++opt) each([opt](const grid &c) {
        world w(bodyA(c), bodyB(c), GRAVS[c.g]); V apex{0.3, 0.9, -0.1}, X1 = {1, 0, 0}, Y1{0, 0.6, 0.8}, P = apex + V{0.8, 0.1, 0.15};
        V pA = w.local(0, apex), pB = w.local(1, P); matrix3x3 f = w.frame(0, X1, Y1); double ty = opt % 3 == 1 ? 0.3 : 0.5, tz = opt % 3 == 2 ? 1.2 : 0.5;
        w.joint = make_constraint<cone_constraint>(w.reg, w.b[0], w.b[1], [&](cone_constraint &k) { k.pivot = {ev(pA), ev(pB)}; k.frame = f; k.span_tan = {scalar(ty), scalar(tz)}; if (opt >= 3) { k.restitution = scalar(0.3); k.bump_stop_length = scalar(0.05); k.bump_stop_stiffness = 3; } });
        double e0 = 0; bool out = false;
        run(w, c, 90, false, [&](int s) {
            V o = w.at(1, pB) - w.at(0, pA); V l{dt(o, rot(w.orn(0), v(f.column(0)))), dt(o, rot(w.orn(0), v(f.column(1)))), dt(o, rot(w.orn(0), v(f.column(2))))};
            double r = std::sqrt(l.y * l.y / ty / ty + l.z * l.z / tz / tz);
            out = out || l.x < 0.2 || l.x > 2; // near the apex and far away what is across the cone is moved much by small turns
            if (!out) within("outside of a cone", (r - l.x) * std::min(ty, tz), 0.05);
            if (s == 0) e0 = w.kinetic();
            if (c.g == 0 && opt < 3 && !out) within("energy from a cone", w.kinetic() - e0, 0.05 * e0 + 1e-3);
        });
    });
}
// Springs between two points: the force is what the law says.
VP_SCENARIO(springs) {
    for (int opt = 0; opt < 4; ++opt) each([opt](const grid &c) {
        world w(bodyA(c), bodyB(c), GRAVS[c.g]); V pA{0.2, 0.1, 0}, pB{-0.1, 0.2, 0.1}; double D = len(w.at(0, pA) - w.at(1, pB)) + (opt & 1 ? 0.2 : -0.15), k = opt < 2 ? 10 : 0, damp = opt >= 1 ? 0.8 : 0;
        w.joint = make_constraint<soft_distance_constraint>(w.reg, w.b[0], w.b[1], [&](soft_distance_constraint &j) { j.pivot = {ev(pA), ev(pB)}; j.distance = scalar(D); j.stiffness = scalar(k); j.damping = scalar(damp); });
        double e0 = 0, h = 1. / 60;
        V was[2], ws[2], pv[2], pw[2], px[2]; auto keep = [&] { for (int i = 0; i < 2; ++i) { was[i] = w.at(i, i ? pB : pA); pv[i] = w.lv(i); pw[i] = w.av(i); px[i] = w.pos(i); } }; keep(); (void)ws;
        run(w, c, 60, true, [&](int s) {
            // Impulse along the line between the points: spring force plus damping by the speed before the step (without gravity, which acts on both alike).
            V d = was[0] - was[1]; double dist = len(d); V n = (1 / dist) * d;
            V g = GRAVS[c.g];
            V gA = c.kind == 0 ? h * g : V{}; // gravity was already added when the joint looks at the velocities
            double rel = dt(n, (pv[0] + gA + cr(pw[0], was[0] - px[0])) - (pv[1] + h * g + cr(pw[1], was[1] - px[1])));
            double want = h * k * (D - dist); double imp = dt(n, w.cfg[1].m * (pv[1] + h * g - w.lv(1)));
            double dmax = h * damp * std::abs(rel);
            within("spring impulse off", std::max(want - dmax - imp, imp - want - dmax), 2e-4);
            if (opt == 0) within("spring impulse off", std::abs(imp - want), 2e-4);
            if (opt >= 2) within("damping pushes the wrong way", imp * (rel > 0 ? 1 : -1), std::abs(rel) < 1e-3 ? 1e-3 : 1e-5);
            if (opt >= 2 && std::abs(rel) > 0.05) within("damping too weak", std::abs(std::abs(imp) - dmax) / dmax, 0.05);
            double now = len(w.at(0, pA) - w.at(1, pB)), e = w.kinetic() + k * (now - D) * (now - D) / 2;
            if (s == 0) e0 = e;
            if (c.g == 0) within("energy from a spring", e - e0, 0.1 * e0 + 0.15);
            keep();
        });
    });
}
VP_SCENARIO(attraction) {
    each([](const grid &c) {
        if (c.kind != 0) return;
        auto A = bodyA(c), B = bodyB(c); double G = 6.674e-11; A.m = 5e10; B.m = 5e10 * MASSES[c.m]; A.I = A.m * A.I; B.I = B.m * B.I;
        world w(A, B, {}); w.joint = make_constraint<gravity_constraint>(w.reg, w.b[0], w.b[1], [](gravity_constraint &) {});
        for (int s = 0; s < 10; ++s) {
            V d = w.pos(1) - w.pos(0); double r = len(d); V was[2] = {w.lv(0), w.lv(1)}; V aw = w.av(1);
            w.tick(); vp::transitions(); vp::states(); w.check_alive({}, {}, false);
            for (int i = 0; i < 2; ++i) { V want = (G * w.cfg[1 - i].m / (r * r * r) / 60 * (i ? -1 : 1)) * d; within("attraction off", len(w.lv(i) - was[i] - want) / len(want), 1e-2); }
            within("attraction turns a body", len(w.av(1) - aw), 1e-6);
        }
        vp::nontrivial(true);
    });
}

namespace {
template<typename T, typename F> void moved(const char *name, F set, double tol) {
    const Q RS[] = {turn({0, 0, 1}, 1.5707963), turn({1, 0, 0}, 3.1415926), turn({1, -1, 2}, 1.9)}; const V TS[] = {{0, 0, 0}, {3, -2, 1}, {-1, 4, 2}};
    for (int r = 0; r < 3; ++r) each([&, r](const grid &c) {
        if ((c.l == 1 && c.m == 1) || c.com == 1) return;
        auto A = bodyA(c), B = bodyB(c); world w(A, B, GRAVS[c.g]); Q R = RS[r];
        w.joint = make_constraint<T>(w.reg, w.b[0], w.b[1], [&](T &k) { set(w, k); });
        auto K = w.reg.get<T>(w.joint);
        for (auto *b : {&A, &B}) { b->pos = rot(R, b->pos) + TS[r]; b->orn = qm(R, b->orn); b->lv = rot(R, b->lv); b->av = rot(R, b->av); }
        world u(A, B, rot(R, GRAVS[c.g]));
        u.joint = make_constraint<T>(u.reg, u.b[0], u.b[1], [&](T &k) { auto b = k.body; k = K; k.body = b; });
        for (int s = 0; s < 40; ++s) {
            w.tick(); u.tick(); vp::transitions(2); vp::states();
            for (int i = 0; i < 2; ++i) {
                within(name, len(rot(R, w.pos(i)) + TS[r] - u.pos(i)), tol);
                within(name, len(rot(R, w.lv(i)) - u.lv(i)), 10 * tol); within(name, len(rot(R, w.av(i)) - u.av(i)), 10 * tol);
            }
        }
        vp::nontrivial(true);
    });
}
}
VP_SCENARIO(elsewhere) {
    V P{0.8, 0.9, 0.1};
    moved<point_constraint>("a point joint depends on where the world is", [P](world &w, point_constraint &k) { k.pivot = {ev(w.local(0, P)), ev(w.local(1, P))}; k.friction_torque = scalar(0.1); }, 2e-3);
    moved<distance_constraint>("a distance joint depends on where the world is", [](world &, distance_constraint &k) { k.pivot = {vector3{scalar(0.2), 0, 0}, vector3{0, scalar(0.1), 0}}; k.distance = scalar(1.2); }, 2e-3);
    moved<soft_distance_constraint>("a spring depends on where the world is", [](world &, soft_distance_constraint &k) { k.pivot = {vector3{scalar(0.2), 0, 0}, vector3{0, scalar(0.1), 0}}; k.distance = scalar(1.2); k.stiffness = 10; k.damping = scalar(0.3); }, 2e-3);
    moved<hinge_constraint>("a hinge depends on where the world is", [P](world &w, hinge_constraint &k) { k.pivot = {ev(w.local(0, P)), ev(w.local(1, P))}; k.frame = {w.frame(0, FX, FY), w.frame(1, FX, FY)}; k.angle_min = scalar(-0.3); k.angle_max = scalar(0.4); k.bump_stop_angle = scalar(0.1); k.bump_stop_stiffness = 4; k.damping = scalar(0.1); k.reset_angle(w.reg.get<orientation>(w.b[0]), w.reg.get<orientation>(w.b[1])); }, 1e-2);
    moved<cvjoint_constraint>("a cv joint depends on where the world is", [P](world &w, cvjoint_constraint &k) { k.pivot = {ev(w.local(0, P)), ev(w.local(1, P))}; k.frame = {w.frame(0, FX, FY), w.frame(1, FX, FY)}; k.twist_min = scalar(-0.3); k.twist_max = scalar(0.4); k.bend_damping = scalar(0.1); k.bend_stiffness = 2; k.rest_direction = k.frame[0].column(0); k.reset_angle(w.reg.get<orientation>(w.b[0]), w.reg.get<orientation>(w.b[1])); }, 1e-2);
    moved<generic_constraint>("a generic joint depends on where the world is", [P](world &w, generic_constraint &k) { k.pivot = {ev(w.local(0, P)), ev(w.local(1, P))}; k.frame = {w.frame(0, FX, FY), w.frame(1, FX, FY)}; k.linear_dofs[0].offset_min = scalar(-0.2); k.linear_dofs[0].offset_max = scalar(0.3); k.angular_dofs[1].angle_min = scalar(-0.3); k.angular_dofs[1].angle_max = scalar(0.2); k.angular_dofs[2].limit_enabled = false; k.angular_dofs[2].spring_stiffness = 2; }, 1e-2);
    moved<cone_constraint>("a cone depends on where the world is", [](world &w, cone_constraint &k) { V apex{0.3, 0.9, -0.1}; k.pivot = {ev(w.local(0, apex)), ev(w.local(1, apex + V{0.8, 0.1, 0.15}))}; k.frame = w.frame(0, X, V{0, 0.6, 0.8}); k.span_tan = {scalar(0.4), scalar(0.8)}; k.bump_stop_length = scalar(0.05); k.bump_stop_stiffness = 3; }, 1e-2);
}

// One way of moving at a time, on both sides, with a spring, a bump stop or a bouncing limit.
namespace {
struct motion { const char *name; bool linear; int axis; std::function<entt::entity(world &, int opt)> make; };
double coordinate(world &w, const motion &m, V pA, V pB, const matrix3x3 &fA, const matrix3x3 &fB) {
    if (m.linear) return dt(w.at(1, pB) - w.at(0, pA), rot(w.orn(0), v(fA.column(m.axis))));
    V xb = rot(w.orn(1), v(fB.column(0)));
    if (m.axis == 0) return angle_between(w.orn(0), fA, w.orn(1), fB);
    return std::asin(std::max(-1., std::min(1., dt(xb, rot(w.orn(0), v(fA.column(m.axis == 1 ? 2 : 1)))))));
}
template<typename D> void options_for(D &d, int opt, scalar &lo, scalar &hi, scalar &bump, scalar &rest) {
    if (opt == 0) { d.limit_enabled = false; d.spring_stiffness = 6; rest = scalar(0.3); d.damping = scalar(1.5); }
    else { lo = scalar(-0.3); hi = scalar(0.4); if (opt == 1) { bump = scalar(0.15); d.bump_stop_stiffness = 40; } else d.limit_restitution = scalar(0.5); }
}
}
VP_SCENARIO(settles) {
    std::vector<motion> ms;
    static V pA, pB; static matrix3x3 fA, fB;
    for (int i = 0; i < 6; ++i) ms.push_back({"generic", i < 3, i % 3, [i](world &w, int opt) { return make_constraint<generic_constraint>(w.reg, w.b[0], w.b[1], [&](generic_constraint &k) {
        k.pivot = {ev(pA), ev(pB)}; k.frame = {fA, fB};
        if (i < 3) { auto &d = k.linear_dofs[i]; options_for(d, opt, d.offset_min, d.offset_max, d.bump_stop_length, d.rest_offset); }
        else { auto &d = k.angular_dofs[i - 3]; options_for(d, opt, d.angle_min, d.angle_max, d.bump_stop_angle, d.rest_angle); } }); }});
    ms.push_back({"hinge", false, 0, [](world &w, int opt) { return make_constraint<hinge_constraint>(w.reg, w.b[0], w.b[1], [&](hinge_constraint &k) {
        k.pivot = {ev(pA), ev(pB)}; k.frame = {fA, fB};
        if (opt == 0) { k.stiffness = 6; k.rest_angle = scalar(0.3); k.damping = scalar(1.5); } else { k.angle_min = scalar(-0.3); k.angle_max = scalar(0.4); if (opt == 1) { k.bump_stop_angle = scalar(0.15); k.bump_stop_stiffness = 40; } else k.limit_restitution = scalar(0.5); } }); }});
    ms.push_back({"cv joint", false, 0, [](world &w, int opt) { return make_constraint<cvjoint_constraint>(w.reg, w.b[0], w.b[1], [&](cvjoint_constraint &k) {
        k.pivot = {ev(pA), ev(pB)}; k.frame = {fA, fB}; k.twist_min = scalar(-0.3); k.twist_max = scalar(0.4);
        if (opt == 0) { k.twist_max = 1; k.twist_stiffness = 6; k.twist_rest_angle = scalar(0.3); k.twist_damping = scalar(1.5); } else if (opt == 1) { k.twist_bump_stop_angle = scalar(0.15); k.twist_bump_stop_stiffness = 40; } else k.twist_restitution = scalar(0.5); }); }});
    // The tip of B, one metre along x, is bent away from where the joint wants it.
    ms.push_back({"bend", false, 2, [](world &w, int opt) { return make_constraint<cvjoint_constraint>(w.reg, w.b[0], w.b[1], [&](cvjoint_constraint &k) {
        k.pivot = {ev(pA), ev(pB)}; k.frame = {fA, fB}; if (opt == 0) { k.bend_stiffness = 6; k.bend_damping = scalar(1.5); k.rest_direction = ev(std::cos(0.3) * v(fA.column(0)) + std::sin(0.3) * v(fA.column(1))); } }); }});
    for (auto &m : ms) for (int opt = 0; opt < 3; ++opt) for (int side = 0; side < 2; ++side) for (int o0 = 0; o0 < 4; ++o0) for (int o1 = 0; o1 < 4; ++o1) for (int kind = 1; kind < 3; ++kind) {
        if (m.name == std::string("bend") && opt) continue;
        if (!vp::begin()) continue;
        char desc[120]; std::snprintf(desc, sizeof desc, "%s, %s %d, %s, side %d, orientations %d %d", m.name, m.linear ? "offset" : "angle", m.axis, opt == 0 ? "spring" : opt == 1 ? "bump stop" : "restitution", side, o0, o1);
        std::string ds = desc; vp::describer() = [ds] { return ds; };
        body_cfg A, B; A.kind = KINDS[kind]; A.orn = ORNS[o0]; B.orn = ORNS[o1]; B.I = {1, 1, 1}; A.pos = {0.4, 0, -0.3}; B.pos = {1, 0.2, 0.1};
        world w0(A, B, {});
        V P = B.pos; pA = w0.local(0, P); pB = w0.local(1, P); fA = w0.frame(0, FX, FY); fB = w0.frame(1, FX, FY);
        double speed = side ? -0.6 : 0.6; V ax = rot(A.orn, v(fA.column(m.axis)));
        // Angles 1 and 2 are those of the x axis of B towards z and y of A.
        if (m.linear) B.lv = speed * ax; else if (m.axis == 0) B.av = speed * ax; else B.av = speed * (m.axis == 1 ? cr(FX, rot(A.orn, v(fA.column(2)))) : cr(FX, rot(A.orn, v(fA.column(1)))));
        world w(A, B, {}); w.joint = m.make(w, opt);
        double x0 = 0, peak = 0, back = 0; int n = opt == 0 ? 400 : 150;
        for (int s = 0; s < n; ++s) {
            w.tick(); vp::transitions(); vp::states();
            double x = coordinate(w, m, pA, pB, fA, fB), u = (x - x0) * 60; x0 = x;
            peak = std::max(peak, side ? -x : x); back = std::max(back, side ? u : -u);
            w.check_alive(A.pos, w.orn(0), false);
            if (opt == 1 && (side ? x > 0.1 : x < -0.05) && s > 10) break;
            if (opt == 2 && (side ? x > 0.1 : x < -0.05) && s > 10) break;
        }
        double lim = side ? 0.3 : 0.4;
        if (opt == 0) within("a spring settles elsewhere", std::abs(x0 - 0.3), 0.02);
        if (opt == 1) { within("a bump stop is too soft", peak - (lim - 0.15 + 0.6 / std::sqrt(40.)), 0.02); within("a bump stop is too hard", lim - 0.15 + 0.6 / std::sqrt(40.) - peak, 0.02); within("a bump stop loses speed", 0.6 - back, 0.12); within("a bump stop gives speed", back - 0.6, 0.05); }
        if (opt == 2) { within("a limit is passed", peak - lim, 0.02); within("a limit is not reached", lim - peak, 0.02); within("a limit bounces too much", back - 0.3, 0.1); }
        vp::nontrivial(true);
        vp::describer() = nullptr;
    }
}

VP_SCENARIO(cone_stops) {
    for (int o0 = 0; o0 < 4; ++o0) for (int o1 = 0; o1 < 4; ++o1) for (int dir = 0; dir < 8; ++dir) for (int bump = 0; bump < 2; ++bump) for (int kind = 1; kind < 3; ++kind) {
        if (!vp::begin()) continue;
        vp::describer() = [=] { char b[80]; std::snprintf(b, sizeof b, "orientations %d %d, direction %d, bump stop %d, kind %d", o0, o1, dir, bump, kind); return std::string(b); };
        body_cfg A, B; A.kind = KINDS[kind]; A.orn = ORNS[o0]; B.orn = ORNS[o1]; B.I = {1, 1, 1}; A.pos = {0.4, 0, -0.3}; V X1 = {0.6, 0.8, 0}, Y1{0, 0, 1}, Z1 = cr(X1, Y1), apex{0.2, 0.1, 0}; B.pos = apex + 1.0 * X1;
        double t = dir * M_PI / 4; V out = std::cos(t) * Y1 + std::sin(t) * Z1; B.lv = 0.5 * out;
        world w(A, B, {}); V pA = w.local(0, apex), pB = w.local(1, B.pos); matrix3x3 f = w.frame(0, X1, Y1);
        w.joint = make_constraint<cone_constraint>(w.reg, w.b[0], w.b[1], [&](cone_constraint &k) { k.pivot = {ev(pA), ev(pB)}; k.frame = f; k.span_tan = {1, 1}; if (bump) { k.bump_stop_length = scalar(0.2); k.bump_stop_stiffness = 20; } });
        double peak = 0, back = 0;
        for (int s = 0; s < 170; ++s) {
            w.tick(); vp::transitions(); vp::states();
            V o = w.at(1, pB) - apex; double x = dt(o, X1), r = len(o - x * X1); within("outside of a cone", (r - x) / std::sqrt(2), 0.02);
            double room = (x - r) / std::sqrt(2);
            if (s < 20) within("a cone acts from afar", len(w.lv(1) - 0.5 * out), 1e-3);
            if (bump && room < 0.05) within("a bump stop of a cone is too soft", 1, 0);
            V n = std::sqrt(0.5) * (X1 - out); back = std::max(back, dt(w.lv(1), n)); peak = std::max(peak, -room);
        }
        if (bump) { within("a bump stop of a cone loses speed", 0.5 * std::sqrt(0.5) - back, 0.1); within("a bump stop of a cone gives speed", back - 0.5 * std::sqrt(0.5), 0.05); }
        else within("a cone bounces", back, 0.02);
        vp::nontrivial(true); vp::describer() = nullptr;
    }
}
