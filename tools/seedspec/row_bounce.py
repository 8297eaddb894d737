ID = "row_bounce"
PROPERTY = "P16"
NEEDS = "a row with restitution whose bodies are already separating"
BREAKS = "the velocity after solving does not follow the restitution for one sign of the relative velocity"
EDITS = [("src/edyn/constraints/constraint_row.cpp", "    row.rhs = -(options.error * options.erp + relvel * (1 + options.restitution));",
"    row.rhs = -(options.error * options.erp + relvel + std::min(relvel, scalar(0)) * options.restitution);")]
DEMO = r'''
#include "edyn/constraints/constraint_row.hpp"
#include "edyn/constraints/constraint_row_options.hpp"
#include <cmath>
#include <cstdio>
int main() {
    using namespace edyn;
    for (int s = -1; s <= 1; s += 2) {
        constraint_row r{};
        delta_linvel va{vector3_zero}, vb{vector3_zero}; delta_angvel wa{vector3_zero}, wb{vector3_zero};
        r.J = {vector3{1, 0, 0}, vector3_zero, vector3{-1, 0, 0}, vector3_zero};
        r.inv_mA = 1; r.inv_mB = 1; r.inv_IA = matrix3x3_zero; r.inv_IB = matrix3x3_zero;
        r.lower_limit = -large_scalar; r.upper_limit = large_scalar;
        r.dvA = &va; r.dvB = &vb; r.dwA = &wa; r.dwB = &wb;
        constraint_row_options o{}; o.restitution = scalar(0.5);
        prepare_row(r, o, vector3{scalar(2 * s), 0, 0}, vector3_zero, vector3_zero, vector3_zero);
        apply_row_impulse(solve(r), r);
        auto rel = 2 * s + va.x - vb.x;
        printf("%d: %f\n", s, double(rel));
        if (std::abs(rel - -s) > 1e-5) return 1;
    }
    return 0;
}
'''
