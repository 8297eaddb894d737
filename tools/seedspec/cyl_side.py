ID = "cyl_side"
PROPERTY = "P26"
NEEDS = "a support direction pointing towards the negative cap of a cylinder, not along its axis"
BREAKS = "the support feature is reported as the side edge although only the negative cap edge is extremal"
EDITS = [("src/edyn/shapes/cylinder_shape.cpp", "std::abs(scalar(2) * half_length * dir[cyl_ax_idx])", "scalar(2) * half_length * dir[cyl_ax_idx]")]
DEMO = r'''
#include "edyn/shapes/cylinder_shape.hpp"
#include <cstdio>
int main() {
    using namespace edyn;
    cylinder_shape c{scalar(0.5), scalar(1), coordinate_axis::x};
    cylinder_feature f; size_t idx = 9;
    c.support_feature(normalize(vector3{-1, 1, 0}), f, idx, scalar(0.005));
    return f == cylinder_feature::cap_edge && idx == 1 ? 0 : 1;
}
'''
