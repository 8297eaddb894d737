// Friction rows: two tangential directions limited together by the impulse of their normal row.
#include "rows.hpp"

VP_SCENARIO(friction_pair) {
    auto B = bodies(); auto U = velocities(); auto Js = jacobians(); size_t np = 0;
    const std::pair<J4, J4> pairs[] = {{Js[0], J4{D3{1, 0, 0}, D3{0, 0, 0}, D3{-1, 0, 0}, D3{0, 0, 0}}}, {Js[1], Js[5]}, {Js[2], Js[3]}, {J4{D3{0, 0, 1}, D3{0.5, 0, 0}, D3{0, 0, -1}, D3{1, 0, 0}}, J4{D3{1, 0, 0}, D3{0, 0, -0.5}, D3{-1, 0, 0}, D3{0, 0.25, -1}}}};
    for (auto &pr : pairs) { ++np; for (auto &a : B) for (auto &b : B) for (auto &u : U) for (double mu : {0., 0.5, 2.}) for (double N : {0., 1., 30.}) for (double p0 : {0., 0.4, -0.3}) for (double p1 : {0., -0.3}) for (double r0 : {0., 1., -5.}) for (double r1 : {0., -2.}) {
        const J4 J[2] = {pr.first, pr.second}; double m[2] = {jmj(J[0], a, b), jmj(J[1], a, b)}; if (m[0] == 0 || m[1] == 0) continue;
        if (!vp::begin()) continue;
        vp::describe("pair %zu, bodies %s and %s, friction %g, normal impulse %g, impulses %g %g, right hand sides %g %g", np, a.name, b.name, mu, N, p0, p1, r0, r1);
        store s, other; s.set(u); other.set(u); std::vector<constraint_row> rows; rows.push_back(make(Js[1], b, a, other)); rows[0].impulse = 55; rows.push_back(make(Js[1], a, b, s)); rows[1].impulse = scalar(N);
        constraint_row_friction f{}; const double prev[2] = {p0, p1}, rhs[2] = {r0, r1};
        for (int i = 0; i < 2; ++i) { for (int k = 0; k < 4; ++k) f.row[i].J[k] = V(J[i][k]); f.row[i].eff_mass = scalar(1 / m[i]); f.row[i].rhs = scalar(rhs[i]); f.row[i].impulse = scalar(prev[i]); }
        f.friction_coefficient = scalar(mu); f.normal_row_index = 1;
        // Each direction on its own would take this impulse; together they are limited to a circle.
        double want[2]; for (int i = 0; i < 2; ++i) want[i] = prev[i] + (rhs[i] - along(J[i], u.v)) / m[i];
        double len = std::hypot(want[0], want[1]), lim = mu * N; bool slides = len > lim; if (slides) for (double &w : want) w *= len > 0 ? lim / len : 0;
        solve_friction(f, rows); D3 v[4], w[4] = {u.v[0], u.v[1], u.v[2], u.v[3]}; s.get(v); vp::nontrivial(slides);
        double got = std::hypot(double(f.row[0].impulse), double(f.row[1].impulse));
        VP_CHECK(got <= lim * (1 + 1e-5) + 1e-7, "the impulse, %g, exceeds the friction limit %g", got, lim);
        for (int i = 0; i < 2; ++i) VP_CHECK(near(f.row[i].impulse, want[i], 1e-4), "impulse %g in direction %d instead of %g", double(f.row[i].impulse), i, want[i]);
        for (int i = 0; i < 2; ++i) response(J[i], a, b, f.row[i].impulse - prev[i], w);
        for (int i = 0; i < 4; ++i) VP_CHECK(near(v[i], w[i], 1e-4), "velocity %d does not match the impulses", i);
        VP_CHECK(rows[1].impulse == scalar(N) && rows[0].impulse == 55, "normal impulses changed"); other.get(w); for (int i = 0; i < 4; ++i) VP_CHECK(near(w[i], u.v[i], 1e-7), "another row's bodies moved");
        s.set(U[0]); warm_start(f, rows); s.get(v); D3 z[4]; for (int i = 0; i < 2; ++i) response(J[i], a, b, f.row[i].impulse, z); for (int i = 0; i < 4; ++i) VP_CHECK(near(v[i], z[i], 1e-4), "warm starting");
    } }
}

// A normal row and its friction rows solved in all orders: the friction limit follows the normal impulse.
VP_SCENARIO(friction_orders) {
    auto B = bodies(); auto Js = jacobians(); int depth = vp::thorough() ? 12 : 10;
    for (size_t x = 1; x < B.size(); ++x) for (size_t y = 0; y < B.size(); ++y) for (double mu : {0.3, 1.}) for (double n0 : {0., 2.}) for (long c = 0; c < (1L << depth); ++c) {
        if (!vp::begin()) continue;
        auto &a = B[x], &b = B[y]; vp::describe("bodies %s and %s, friction %g, order %ld", a.name, b.name, mu, c);
        store s; s.set(velocities()[0]); J4 Jn = Js[0], J[2] = {J4{D3{0, 0, 1}, D3{0.5, 0, 0}, D3{0, 0, -1}, D3{1, 0, 0}}, J4{D3{1, 0, 0}, D3{0, 0, -0.5}, D3{-1, 0, 0}, D3{0, 0.25, -1}}};
        std::vector<constraint_row> rows{make(Jn, a, b, s)}; auto &n = rows[0]; n.eff_mass = scalar(1 / jmj(Jn, a, b)); n.rhs = 3; n.lower_limit = 0; n.upper_limit = large_scalar; n.impulse = scalar(n0);
        constraint_row_friction f{}; for (int i = 0; i < 2; ++i) { for (int k = 0; k < 4; ++k) f.row[i].J[k] = V(J[i][k]); f.row[i].eff_mass = scalar(1 / jmj(J[i], a, b)); f.row[i].rhs = scalar(i ? -2 : 4); } f.friction_coefficient = scalar(mu);
        warm_start(n); warm_start(f, rows); long k = c;
        for (int i = 0; i < depth; ++i, k /= 2) {
            vp::transitions();
            if (k % 2) { double d = solve(n); apply_row_impulse(scalar(d), n); }
            else { solve_friction(f, rows); double got = std::hypot(double(f.row[0].impulse), double(f.row[1].impulse)); VP_CHECK(got <= mu * n.impulse * (1 + 1e-4) + 1e-6, "step %d: friction impulse %g, normal impulse %g", i, got, double(n.impulse)); }
            VP_CHECK(n.impulse >= 0, "the normal impulse pulls");
            D3 v[4], w[4]; s.get(v); response(Jn, a, b, n.impulse, w); for (int q = 0; q < 2; ++q) response(J[q], a, b, f.row[q].impulse, w);
            for (int q = 0; q < 4; ++q) VP_CHECK(near(v[q], w[q], 1e-3), "step %d: velocity %d is not explained by the impulses", i, q);
        }
        vp::states(); vp::nontrivial();
    }
}
