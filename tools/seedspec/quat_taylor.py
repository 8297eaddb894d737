ID = "quat_taylor"
PROPERTY = "P27"
NEEDS = "a slow rotation integrated over a long time step"
BREAKS = "the orientation after a step does not correspond to the angle turned"
EDITS = [("src/edyn/math/quaternion.cpp", "const auto min_ws = scalar(0.001);", "const auto min_ws = scalar(1);")]
DEMO = r'''
#include "edyn/math/quaternion.hpp"
#include <cmath>
#include <cstdio>
int main() {
    using namespace edyn;
    auto q = integrate(quaternion_identity, vector3{0, 0, scalar(0.9)}, scalar(3));
    auto v = rotate(q, vector3{1, 0, 0});
    printf("%f %f\n", double(v.x), double(v.y));
    return std::abs(v.x - std::cos(2.7)) < 1e-4 && std::abs(v.y - std::sin(2.7)) < 1e-4 ? 0 : 1;
}
'''
