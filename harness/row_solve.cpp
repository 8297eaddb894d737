// Preparation and solution of constraint rows and of the spinning friction rows that depend on them.
#include "rows.hpp"

VP_SCENARIO(prepare) {
    auto B = bodies(); auto U = velocities(); size_t nj = 0;
    for (auto &J : jacobians()) { ++nj; for (auto &a : B) for (auto &b : B) for (auto &u : U) for (double err : {0., 0.5, -2.}) for (double erp : {0.2, 0., 1.}) for (double rest : {0., 0.5, 1.}) {
        if (jmj(J, a, b) == 0) continue;
        if (!vp::begin()) continue;
        vp::describe("jacobian %zu, bodies %s and %s, error %g, erp %g, restitution %g", nj, a.name, b.name, err, erp, rest);
        store s; constraint_row r = make(J, a, b, s); r.lower_limit = -7; r.upper_limit = 9; r.impulse = 3; constraint_row_options o; o.error = scalar(err); o.erp = scalar(erp); o.restitution = scalar(rest);
        auto was = r; prepare_row(r, o, V(u.v[0]), V(u.v[1]), V(u.v[2]), V(u.v[3]));
        vp::nontrivial();
        VP_CHECK(near(r.eff_mass * jmj(J, a, b), 1, 1e-5), "effective mass %g", double(r.eff_mass));
        VP_CHECK(near(r.rhs, -(err * erp + along(J, u.v) * (1 + rest)), 2e-5), "right hand side %g instead of %g", double(r.rhs), -(err * erp + along(J, u.v) * (1 + rest)));
        VP_CHECK(r.lower_limit == was.lower_limit && r.upper_limit == was.upper_limit && r.impulse == was.impulse, "limits or the impulse changed");
    } }
}

VP_SCENARIO(solve_one) {
    auto B = bodies(); auto U = velocities(); size_t nj = 0;
    for (auto &J : jacobians()) { ++nj; for (auto &a : B) for (auto &b : B) for (auto &u : U) for (auto &l : limits) for (double prev : {0., 0.75, -0.75}) for (double rhs : {0., 4., -4., 0.03}) {
        if (jmj(J, a, b) == 0) continue;
        if (!vp::begin()) continue;
        vp::describe("jacobian %zu, bodies %s and %s, limits %g %g, impulse %g, right hand side %g", nj, a.name, b.name, l.lo, l.hi, prev, rhs);
        store s; s.set(u); constraint_row r = make(J, a, b, s); r.eff_mass = scalar(1 / jmj(J, a, b)); r.rhs = scalar(rhs); r.lower_limit = scalar(l.lo); r.upper_limit = scalar(l.hi); r.impulse = scalar(prev);
        double d = solve(r); D3 v[4]; s.get(v);
        for (int i = 0; i < 4; ++i) VP_CHECK(near(v[i], u.v[i], 1e-7), "solving changes the velocities");
        VP_CHECK(near(r.impulse - prev, d, 1e-4), "the impulse changed by %g, %g was returned", double(r.impulse) - prev, d);
        VP_CHECK(r.impulse >= r.lower_limit && r.impulse <= r.upper_limit, "impulse %g out of its limits", double(r.impulse));
        apply_row_impulse(scalar(d), r); s.get(v);
        D3 w[4] = {u.v[0], u.v[1], u.v[2], u.v[3]}; response(J, a, b, d, w);
        for (int i = 0; i < 4; ++i) VP_CHECK(near(v[i], w[i], 1e-5), "velocity %d is %s instead of %s", i, geo::str(v[i]).c_str(), geo::str(w[i]).c_str());
        double res = rhs - along(J, v); bool lo = r.impulse == r.lower_limit, hi = r.impulse == r.upper_limit; const double T = 1e-4;
        vp::nontrivial(lo || hi);
        VP_CHECK(std::abs(res) < T || (lo && res < T) || (hi && res > -T), "the row is neither solved nor at a limit: residual %g, impulse %g", res, double(r.impulse));
        // Warm starting applies what has been accumulated.
        store s2; s2.set(U[0]); r.dvA = &s2.dvA; r.dvB = &s2.dvB; r.dwA = &s2.dwA; r.dwB = &s2.dwB; warm_start(r); s2.get(v); D3 z[4]; response(J, a, b, r.impulse, z);
        for (int i = 0; i < 4; ++i) VP_CHECK(near(v[i], z[i], 1e-4), "warm starting");
    } }
}

// All orders of solving three rows that share bodies: accumulated impulses explain the velocities, limits hold.
VP_SCENARIO(solve_sequences) {
    auto B = bodies(); auto Js = jacobians(); int depth = vp::thorough() ? 8 : 6; long total = 1; for (int i = 0; i < depth; ++i) total *= 3;
    for (size_t set = 0; set < 4; ++set) for (size_t ab = 0; ab < 3; ++ab) for (long c = 0; c < total; ++c) {
        if (!vp::begin()) continue;
        vp::describe("set %zu, bodies %zu, order %ld", set, ab, c);
        auto &a = B[ab ? 3 : 1]; auto &b = B[ab == 1 ? 0 : 2]; store s; s.set(velocities()[0]);
        std::vector<constraint_row> r; std::vector<J4> J;
        for (size_t i = 0; i < 3; ++i) { auto j = Js[(set + i * (1 + set % 2)) % Js.size()]; if (jmj(j, a, b) == 0) j = Js[1]; J.push_back(j); r.push_back(make(j, a, b, s)); r[i].eff_mass = scalar(1 / jmj(j, a, b)); r[i].rhs = scalar(i == 0 ? 3 : i == 1 ? -2 : 0.5); auto &l = limits[(set + 2 * i) % 6]; r[i].lower_limit = scalar(l.lo); r[i].upper_limit = scalar(l.hi); r[i].impulse = 0; }
        long k = c; double energy_dir = 0; (void)energy_dir;
        for (int i = 0; i < depth; ++i) {
            auto n = size_t(k % 3); k /= 3; double before = r[n].impulse, d = solve(r[n]); apply_row_impulse(scalar(d), r[n]); vp::transitions();
            VP_CHECK(near(r[n].impulse - before, d, 1e-4) && r[n].impulse >= r[n].lower_limit && r[n].impulse <= r[n].upper_limit, "impulse %g of row %zu", double(r[n].impulse), n);
            D3 v[4], w[4]; s.get(v); for (size_t q = 0; q < 3; ++q) response(J[q], a, b, r[q].impulse, w);
            for (int q = 0; q < 4; ++q) VP_CHECK(near(v[q], w[q], 2e-4), "step %d: velocity %d is not explained by the impulses", i, q);
            double res = r[n].rhs - along(J[n], v); bool lo = r[n].impulse == r[n].lower_limit, hi = r[n].impulse == r[n].upper_limit;
            VP_CHECK(std::abs(res) < 1e-3 || (lo && res < 1e-3) || (hi && res > -1e-3), "step %d: the row just solved is not", i);
        }
        vp::states(); vp::nontrivial();
    }
}

VP_SCENARIO(spinning_friction) {
    auto B = bodies(); auto U = velocities();
    for (auto &a : B) for (auto &b : B) for (auto &u : U) for (D3 ax : {D3{0, 1, 0}, D3{0.6, 0, -0.8}}) for (double mu : {0., 0.5, 2.}) for (double N : {0., 1., 30.}) for (double prev : {0., 0.4, -0.4}) for (double rhs : {0., 1., -5.}) {
        J4 J{D3{0, 0, 0}, ax, D3{0, 0, 0}, -ax}; if (jmj(J, a, b) == 0) continue;
        if (!vp::begin()) continue;
        vp::describe("bodies %s and %s, friction %g, normal impulse %g, impulse %g, right hand side %g", a.name, b.name, mu, N, prev, rhs);
        store s, other; s.set(u); other.set(u); std::vector<constraint_row> rows; rows.push_back(make(J, b, a, other)); rows[0].impulse = 55; rows.push_back(make(jacobians()[1], a, b, s)); rows[1].impulse = scalar(N);
        constraint_row_spin_friction f{}; f.J = {V(J[1]), V(J[3])}; f.eff_mass = scalar(1 / jmj(J, a, b)); f.rhs = scalar(rhs); f.impulse = scalar(prev); f.friction_coefficient = scalar(mu); f.normal_row_index = 1;
        solve_spin_friction(f, rows); D3 v[4], w[4] = {u.v[0], u.v[1], u.v[2], u.v[3]}; s.get(v);
        VP_CHECK(std::abs(f.impulse) <= mu * N * (1 + 1e-6), "impulse %g exceeds the friction limit %g", double(f.impulse), mu * N);
        response(J, a, b, f.impulse - prev, w); for (int i = 0; i < 4; ++i) VP_CHECK(near(v[i], w[i], 1e-4), "velocity %d does not match the impulse", i);
        double res = rhs - along(J, v); bool lo = near(f.impulse, -mu * N, 1e-6), hi = near(f.impulse, mu * N, 1e-6); vp::nontrivial(!lo && !hi);
        VP_CHECK(std::abs(res) < 1e-4 || (lo && res < 1e-4) || (hi && res > -1e-4), "the row is neither solved nor at its limit");
        VP_CHECK(rows[1].impulse == scalar(N) && rows[0].impulse == 55, "normal impulses changed"); other.get(w); for (int i = 0; i < 4; ++i) VP_CHECK(near(w[i], u.v[i], 1e-7), "another row's bodies moved");
        s.set(U[0]); warm_start(f, rows); s.get(v); D3 z[4]; response(J, a, b, f.impulse, z); for (int i = 0; i < 4; ++i) VP_CHECK(near(v[i], z[i], 1e-4), "warm starting");
    }
}
